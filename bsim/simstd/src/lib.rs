//! A standard library whose files, processes, environment, output and
//! configuration are simulated.  Everything else is the real one.

pub use ::std::*;

pub mod world;
use world::*;

#[macro_export]
macro_rules! println {
    ($($t:tt)*) => { $crate::world::out_line(&::std::format!($($t)*)) };
}
#[macro_export]
macro_rules! print {
    ($($t:tt)*) => { $crate::world::out_part(&::std::format!($($t)*)) };
}
#[macro_export]
macro_rules! eprintln {
    ($($t:tt)*) => { $crate::world::err_line(&::std::format!($($t)*)) };
}
#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => { $crate::world::err_line(&::std::format!($($t)*)) };
}
#[macro_export]
macro_rules! cfg {
    ($($t:tt)*) => { $crate::world::configured(::std::stringify!($($t)*)) };
}

pub mod prelude {
    pub use ::std::prelude::*;
}

pub mod env {
    #[allow(unused_imports)]
    pub use ::std::env::*;
    use ::std::ffi::{OsStr, OsString};
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        super::get_env(k.as_ref())
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        match var_os(k) {
            None => Err(VarError::NotPresent),
            Some(v) => v.into_string().map_err(VarError::NotUnicode),
        }
    }
}

pub mod fs {
    #[allow(unused_imports)]
    pub use ::std::fs::*;
    use super::io::Result;
    use ::std::path::Path;
    pub fn create_dir<P: AsRef<Path>>(p: P) -> Result<()> {
        super::fs_create_dir(p.as_ref())
    }
    pub fn create_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
        match super::fs_create_dir(p.as_ref()) {
            Err(e) if e.kind() == super::io::ErrorKind::AlreadyExists => Ok(()),
            r => r,
        }
    }
    pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
        super::fs_remove_dir_all(p.as_ref())
    }
}

pub mod process {
    #[allow(unused_imports)]
    pub use ::std::process::*;
    use super::io;
    use ::std::ffi::{OsStr, OsString};

    pub fn exit(code: i32) -> ! {
        super::exit(code)
    }

    pub struct Stdio;
    impl Stdio {
        pub fn null() -> Stdio {
            Stdio
        }
        pub fn piped() -> Stdio {
            Stdio
        }
        pub fn inherit() -> Stdio {
            Stdio
        }
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct ExitStatus(pub i32);
    impl ExitStatus {
        pub fn success(&self) -> bool {
            self.0 == 0
        }
        pub fn code(&self) -> Option<i32> {
            if self.0 < 0 {
                None
            } else {
                Some(self.0)
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct Output {
        pub status: ExitStatus,
        pub stdout: Vec<u8>,
        pub stderr: Vec<u8>,
    }

    pub struct Command {
        argv: Vec<OsString>,
        /// None: removed.
        env: Vec<(OsString, Option<OsString>)>,
    }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(p: S) -> Command {
            Command { argv: vec![p.as_ref().to_owned()], env: Vec::new() }
        }
        pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
            self.argv.push(a.as_ref().to_owned());
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Command {
            for a in a {
                self.arg(a);
            }
            self
        }
        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
            self.env.push((k.as_ref().to_owned(), Some(v.as_ref().to_owned())));
            self
        }
        pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
            self.env.push((k.as_ref().to_owned(), None));
            self
        }
        pub fn stdin(&mut self, _: Stdio) -> &mut Command {
            self
        }
        pub fn stdout(&mut self, _: Stdio) -> &mut Command {
            self
        }
        pub fn stderr(&mut self, _: Stdio) -> &mut Command {
            self
        }
        pub fn status(&mut self) -> io::Result<ExitStatus> {
            super::run_command(&self.argv, &self.env).map(|o| o.0)
        }
        pub fn output(&mut self) -> io::Result<Output> {
            super::run_command(&self.argv, &self.env)
                .map(|(status, stdout)| Output { status, stdout, stderr: Vec::new() })
        }
    }
}
