//! The simulated machine on which build scripts run: one output directory, one
//! compiler, several scripts that take turns at every call into the system.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io;
use std::panic::resume_unwind;
use std::path::Path;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

use crate::process::ExitStatus;

/// How a script stopped other than by returning.
pub struct Exit(pub i32);
pub struct Killed;

/// More calls than this is no progress.
pub const LIMIT: u32 = 400;

pub const F_KILL: u8 = 1;
pub const F_ERR: u8 = 2;
pub const F_CHILD_FAILS: u8 = 3;
pub const F_CHILD_DIES: u8 = 4;
pub const F_GARBAGE: u8 = 5;
pub const F_DISK_FULL: u8 = 6;
pub const FAULTS: &[(u8, &str)] = &[
    (F_KILL, "script-killed"),
    (F_ERR, "system-call-error"),
    (F_CHILD_FAILS, "compiler-exits-nonzero"),
    (F_CHILD_DIES, "compiler-killed"),
    (F_GARBAGE, "garbled-version"),
    (F_DISK_FULL, "disk-full"),
];

#[derive(Clone, Debug, PartialEq)]
pub struct Tool {
    pub minor: u32,
    pub nightly: bool,
    /// The unstable interface has the form the crate expects.
    pub api: bool,
    pub version: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub env: BTreeMap<String, OsString>,
    pub proc_macro: bool,
    pub span_locations: bool,
    pub semver_exempt: bool,
    /// Call number to (fault, argument).
    pub faults: BTreeMap<u32, (u8, u32)>,

    pub out: String,
    pub err: String,
    pub calls: u32,
    /// Faults that really struck.
    pub hit: Vec<u8>,
    /// (feature, succeeded) of each probe.
    pub probes: Vec<(String, bool)>,
    /// A probe lost its directory, or found its file system failing.
    pub disturbed: bool,
    /// What the compiler said its version was, and whether it exited well.
    pub version: Option<(Vec<u8>, bool)>,
    pub exit: Option<i32>,
    pub killed: bool,
    pub points_exceeded: bool,
    pub panicked: Option<String>,
    /// When it finished, in finishing order.
    pub finished: u64,
    pub setup_error: bool,
    pub cleanup_error: bool,
    pub cleanup_not_empty: bool,
    pub wrong: Vec<String>,
}

pub struct State {
    pub dirs: BTreeMap<String, bool>,
    pub tool: Tool,
    pub scripts: Vec<Script>,
    pub alive: Vec<bool>,
    pub turn: usize,
    pub sched: Vec<u8>,
    pub pos: usize,
    pub switches: u64,
    pub points: u64,
    pub log: u64,
    pub ops: BTreeMap<&'static str, u64>,
}

pub struct Sim {
    pub st: Mutex<State>,
    pub cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
}

pub fn enter(sim: &Arc<Sim>, i: usize) {
    ME.with(|m| *m.borrow_mut() = Some((sim.clone(), i)));
}
fn me() -> (Arc<Sim>, usize) {
    ME.with(|m| m.borrow().clone()).expect("inside a simulated script")
}
/// How it ended.
pub fn ended(exit: Option<i32>, killed: bool, panicked: Option<String>) {
    let (sim, i) = me();
    let mut st = lock(&sim, i);
    let s = &mut st.scripts[i];
    s.exit = exit;
    s.killed = killed && !s.points_exceeded;
    s.panicked = panicked;
}
/// The script is over; let the others go on.
pub fn leave() {
    let (sim, i) = me();
    let mut st = lock(&sim, i);
    st.alive[i] = false;
    st.scripts[i].finished = st.points;
    next_turn(&mut st, i, 1);
    sim.cv.notify_all();
    drop(st);
    ME.with(|m| *m.borrow_mut() = None);
}

fn lock(sim: &Sim, i: usize) -> MutexGuard<'_, State> {
    let mut st = sim.st.lock().unwrap_or_else(|e| e.into_inner());
    while st.turn != i {
        st = sim.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    st
}

fn next_turn(st: &mut State, i: usize, by: usize) {
    let n = st.alive.len();
    let mut t = i;
    for _ in 0..by {
        for _ in 0..n {
            t = (t + 1) % n;
            if st.alive[t] {
                break;
            }
        }
    }
    if st.alive[t] {
        if t != st.turn {
            st.switches += 1;
        }
        st.turn = t;
    }
}

fn note(st: &mut State, x: u64) {
    st.log = (st.log ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
}

/// A call into the system: others may run first, and a fault may strike.
/// Calls the action with the fault that does.
fn point<R>(kind: &'static str, act: impl FnOnce(&mut State, usize, Option<(u8, u32)>) -> R) -> R {
    let (sim, i) = me();
    {
        let mut st = lock(&sim, i);
        st.points += 1;
        let b = st.sched.get(st.pos).copied().unwrap_or(0);
        st.pos += 1;
        if b > 0 && st.alive.iter().filter(|a| **a).count() > 1 {
            next_turn(&mut st, i, b as usize);
            sim.cv.notify_all();
        }
    }
    let mut st = lock(&sim, i);
    st.scripts[i].calls += 1;
    let n = st.scripts[i].calls;
    *st.ops.entry(kind).or_insert(0) += 1;
    let f = st.scripts[i].faults.get(&n).copied();
    if n > LIMIT {
        st.scripts[i].points_exceeded = true;
        drop(st);
        resume_unwind(Box::new(Killed));
    }
    note(&mut st, (i as u64) << 8 | kind.len() as u64 | (f.map_or(0, |f| f.0) as u64) << 16);
    if let Some((F_KILL, _)) = f {
        st.scripts[i].hit.push(F_KILL);
        drop(st);
        resume_unwind(Box::new(Killed));
    }
    act(&mut st, i, f)
}

fn os(code: i32) -> io::Error {
    io::Error::from_raw_os_error(code)
}
fn name(p: &Path) -> String {
    p.to_string_lossy().trim_end_matches('/').to_string()
}
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}

pub fn configured(what: &str) -> bool {
    let w: String = what.chars().filter(|c| !c.is_whitespace()).collect();
    let (sim, i) = me();
    let st = lock(&sim, i);
    let s = &st.scripts[i];
    match w.as_str() {
        "procmacro2_semver_exempt" => s.semver_exempt,
        "feature=\"proc-macro\"" => s.proc_macro,
        "feature=\"span-locations\"" => s.span_locations,
        "target_os=\"linux\"" | "unix" => true,
        _ => false,
    }
}

pub fn get_env(k: &OsStr) -> Option<OsString> {
    let (sim, i) = me();
    let st = lock(&sim, i);
    st.scripts[i].env.get(&*k.to_string_lossy()).cloned()
}

pub fn out_part(s: &str) {
    let (sim, i) = me();
    lock(&sim, i).scripts[i].out.push_str(s);
}
pub fn out_line(s: &str) {
    out_part(&format!("{}\n", s));
}
pub fn err_line(s: &str) {
    let (sim, i) = me();
    let mut st = lock(&sim, i);
    st.scripts[i].err.push_str(s);
    st.scripts[i].err.push('\n');
}

pub fn exit(code: i32) -> ! {
    resume_unwind(Box::new(Exit(code)))
}

pub fn fs_create_dir(p: &Path) -> io::Result<()> {
    let p = name(p);
    point("create-directory", |st, i, f| {
        if let Some((F_ERR | F_DISK_FULL, v)) = f {
            let code = if f.unwrap().0 == F_DISK_FULL { 28 } else { [13, 5, 30, 28][v as usize % 4] };
            st.scripts[i].hit.push(f.unwrap().0);
            st.scripts[i].setup_error = true;
            return Err(os(code));
        }
        if st.dirs.contains_key(&p) {
            return Err(os(17));
        }
        if st.dirs.get(parent(&p)) != Some(&true) {
            st.scripts[i].setup_error = true;
            return Err(os(2));
        }
        st.dirs.insert(p.clone(), true);
        note(st, 3);
        Ok(())
    })
}

/// As the real one: entry by entry, missing entries are no error, the
/// directory itself goes last.
pub fn fs_remove_dir_all(p: &Path) -> io::Result<()> {
    let p = name(p);
    let entries = point("list-directory", |st, i, f| {
        if let Some((F_ERR, v)) = f {
            st.scripts[i].hit.push(F_ERR);
            st.scripts[i].cleanup_error = true;
            return Err(os([13, 5, 116][v as usize % 3]));
        }
        if st.dirs.get(&p) != Some(&true) {
            return Err(os(2));
        }
        let pre = format!("{}/", p);
        Ok(st.dirs.keys().filter(|k| k.starts_with(&pre)).cloned().collect::<Vec<_>>())
    })?;
    for e in entries {
        point("remove-file", |st, i, f| {
            if let Some((F_ERR, v)) = f {
                st.scripts[i].hit.push(F_ERR);
                st.scripts[i].cleanup_error = true;
                return Err(os([13, 5, 30][v as usize % 3]));
            }
            st.dirs.remove(&e);
            note(st, 5);
            Ok(())
        })?;
    }
    point("remove-directory", |st, i, f| {
        if let Some((F_ERR, v)) = f {
            st.scripts[i].hit.push(F_ERR);
            // A network file system left something behind.
            if v % 2 == 0 {
                st.scripts[i].cleanup_not_empty = true;
                return Err(os(39));
            }
            st.scripts[i].cleanup_error = true;
            return Err(os(16));
        }
        if st.dirs.get(&p) != Some(&true) {
            return Err(os(2));
        }
        let pre = format!("{}/", p);
        if st.dirs.keys().any(|k| k.starts_with(&pre)) {
            return Err(os(39));
        }
        st.dirs.remove(&p);
        note(st, 7);
        Ok(())
    })
}

/// Would the compiler accept the probe (or the crate with the capability on)?
pub fn capable(tool: &Tool, feature: &str, bootstrap: Option<&OsStr>, restricted: bool) -> bool {
    match feature {
        "proc_macro_span" => {
            let granted = match bootstrap {
                Some(b) => b.to_string_lossy().split(',').any(|x| x == "1" || x == "proc_macro2"),
                None => false,
            };
            (tool.nightly || granted) && !restricted && tool.api
        }
        "proc_macro_span_location" | "proc_macro_span_file" => tool.minor >= 88,
        _ => false,
    }
}

pub fn run_command(argv: &[OsString], changes: &[(OsString, Option<OsString>)]) -> io::Result<(ExitStatus, Vec<u8>)> {
    let argv: Vec<String> = argv.iter().map(|a| a.to_string_lossy().to_string()).collect();
    // Start it.
    let fault = point("start-process", |st, i, f| {
        if let Some((F_ERR, v)) = f {
            st.scripts[i].hit.push(F_ERR);
            st.scripts[i].disturbed = true;
            return Err(os([2, 11, 12, 13][v as usize % 4]));
        }
        Ok(f)
    })?;
    let version = argv.iter().any(|a| a == "--version" || a == "-V" || a == "-vV");
    // Find the compiler behind the wrappers.
    let (sim, i) = me();
    let (env, tool) = {
        let st = lock(&sim, i);
        (st.scripts[i].env.clone(), st.tool.clone())
    };
    let set = |k: &str| env.get(k).map(|v| v.to_string_lossy().to_string()).filter(|v| !v.is_empty());
    let mut want: Vec<String> = Vec::new();
    if !version || argv[0] != set("RUSTC").unwrap_or_default() {
        want.extend(set("RUSTC_WRAPPER"));
        want.extend(set("RUSTC_WORKSPACE_WRAPPER"));
    }
    want.extend(set("RUSTC"));
    if !argv.starts_with(&want) {
        let msg = format!("started {:?} instead of the compiler {:?}", argv, want);
        lock(&sim, i).scripts[i].wrong.push(msg);
        return Err(os(2));
    }
    let args = &argv[want.len()..];
    if version {
        return point("compiler-answers", |st, i, f| {
            let f = f.or(fault);
            match f {
                Some((F_CHILD_FAILS | F_CHILD_DIES, v)) => {
                    st.scripts[i].hit.push(f.unwrap().0);
                    // What it had printed by then is anything.
                    let n = v as usize % (tool.version.len() + 1);
                    let said = tool.version[..n].to_vec();
                    st.scripts[i].version = Some((said.clone(), false));
                    Ok((ExitStatus(if v % 2 == 0 { 1 } else { -9 }), said))
                }
                Some((F_GARBAGE, v)) => {
                    st.scripts[i].hit.push(F_GARBAGE);
                    let all: [&[u8]; 6] = [b"", b"rustc", b"rustc 1.", b"\xff\xfe", b"rustc 1.x.0", b"rustc 2.0.0"];
                    let said = all[v as usize % 6].to_vec();
                    st.scripts[i].version = Some((said.clone(), true));
                    Ok((ExitStatus(0), said))
                }
                _ => {
                    st.scripts[i].version = Some((tool.version.clone(), true));
                    Ok((ExitStatus(0), tool.version.clone()))
                }
            }
        });
    }
    // A compilation.
    let mut bootstrap = env.get("RUSTC_BOOTSTRAP").cloned();
    for (k, v) in changes {
        if k == "RUSTC_BOOTSTRAP" {
            bootstrap = v.clone();
        }
    }
    let value = |k: &str| {
        args.iter().position(|a| a == k).and_then(|p| args.get(p + 1).cloned()).or_else(|| {
            args.iter().find_map(|a| a.strip_prefix(&format!("{}=", k)).map(|x| x.to_string()))
        })
    };
    let out_dir = value("--out-dir").unwrap_or_default();
    let source = args.iter().find(|a| a.ends_with(".rs")).cloned().unwrap_or_default();
    let feature = source.rsplit('/').next().unwrap_or("").trim_end_matches(".rs").to_string();
    let restricted = args.iter().any(|a| a.starts_with("-Zallow-features"));
    {
        let mut st = lock(&sim, i);
        let s = &mut st.scripts[i];
        if !["proc_macro_span", "proc_macro_span_location", "proc_macro_span_file"].iter().any(|p| source == format!("src/probe/{}.rs", p)) {
            s.wrong.push(format!("compiled {:?}", source));
        }
        if let Some(t) = set("TARGET") {
            if value("--target").as_deref() != Some(&t) {
                s.wrong.push(format!("probed for {:?}, not for the target {:?}", value("--target"), t));
            }
        }
        if let Some(fl) = set("CARGO_ENCODED_RUSTFLAGS") {
            for fl in fl.split('\x1f') {
                if !args.iter().any(|a| a == fl) {
                    s.wrong.push(format!("probed without the flag {:?}", fl));
                }
            }
        }
    }
    let ok = capable(&tool, &feature, bootstrap.as_deref(), restricted);
    for (n, suffix) in ["d", "rmeta"].iter().enumerate() {
        let stop = point("compiler-writes", |st, i, f| {
            let f = f.or(if n == 0 { fault } else { None });
            match f {
                Some((F_CHILD_FAILS, _)) => {
                    st.scripts[i].hit.push(F_CHILD_FAILS);
                    return Some(1);
                }
                Some((F_CHILD_DIES, _)) => {
                    st.scripts[i].hit.push(F_CHILD_DIES);
                    // Torn output.
                    if st.dirs.get(&out_dir) == Some(&true) {
                        st.dirs.insert(format!("{}/proc_macro2.{}.tmp", out_dir, suffix), false);
                    }
                    return Some(-9);
                }
                Some((F_DISK_FULL, _)) => {
                    st.scripts[i].hit.push(F_DISK_FULL);
                    return Some(1);
                }
                _ => {}
            }
            if st.dirs.get(&out_dir) != Some(&true) {
                // Another script has cleaned up meanwhile.
                return Some(2);
            }
            if n == 0 || ok {
                st.dirs.insert(format!("{}/proc_macro2.{}", out_dir, suffix), false);
                note(st, 9);
            }
            None
        });
        if let Some(code) = stop {
            let mut st = lock(&sim, i);
            st.scripts[i].disturbed = true;
            st.scripts[i].probes.push((feature, false));
            return Ok((ExitStatus(code), Vec::new()));
        }
        if n == 0 && !ok {
            break;
        }
    }
    let mut st = lock(&sim, i);
    st.scripts[i].probes.push((feature, ok));
    Ok((ExitStatus(if ok { 0 } else { 1 }), Vec::new()))
}
