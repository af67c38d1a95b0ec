//! Makes a module of /repo/build.rs: crate attributes go, a way to call it comes.
use std::{env, fs, path::Path};

fn main() {
    const SCRIPT: &str = "/repo/build.rs";
    println!("cargo:rerun-if-changed={}", SCRIPT);
    println!("cargo:rerun-if-changed=build.rs");
    let text = fs::read_to_string(SCRIPT).expect("read the build script");
    let mut out = String::new();
    for line in text.lines() {
        if !line.starts_with("#![") {
            out.push_str(line);
        }
        out.push('\n');
    }
    out.push_str("\npub fn __run() {\n    main()\n}\n");
    let dir = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&dir).join("script.rs"), out).unwrap();
}
