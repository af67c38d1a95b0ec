//! The real build script of proc-macro2, compiled against `simstd` in place of
//! the standard library's files, processes, environment and output.
#![no_std]
#![allow(warnings)]
extern crate simstd as std;

mod script {
    #[allow(unused_imports)]
    use std::prelude::rust_2021::*;
    #[allow(unused_imports)]
    use std::{cfg, eprint, eprintln, print, println};
    include!(concat!(env!("OUT_DIR"), "/script.rs"));
}

pub fn run() {
    script::__run()
}
