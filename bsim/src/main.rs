//! Deterministic simulation of proc-macro2's build script: the real build.rs,
//! several at a time, on a simulated file system and with a simulated compiler,
//! through crashes, failing calls and the history of builds cargo makes of it.

mod rng;

use rng::{hash_str, mix, Rng};
use simstd::world::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ffi::OsStr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

const OUT: &str = "/simulated/out";
const PROBES: [&str; 3] = ["proc_macro_span", "proc_macro_span_location", "proc_macro_span_file"];
const BOOTSTRAP: [Option<&str>; 5] = [None, Some("1"), Some("proc_macro2"), Some("other,proc_macro2"), Some("other")];

// --- plans ------------------------------------------------------------------------

#[derive(Clone, Default, PartialEq)]
struct Session {
    bootstrap: usize,
    /// 0: nothing, else probe file n - 1 was edited.
    touched: usize,
    /// Cargo's record is gone (cargo clean -p, another profile).
    forgotten: bool,
    sched: Vec<u8>,
    /// Per script: call, fault, argument.
    scripts: Vec<Vec<(u32, u8, u32)>>,
}

#[derive(Clone, Default, PartialEq)]
struct Plan {
    minor: u32,
    nightly: bool,
    api: bool,
    version: u32,
    proc_macro: bool,
    span_locations: bool,
    exempt: bool,
    restricted: bool,
    wrapper: u32,
    workspace_wrapper: u32,
    target: bool,
    flags: u32,
    stage: bool,
    missing: u32,
    sessions: Vec<Session>,
    head: String,
}

fn plan(cfg: &str, seed: u64, run: u64) -> Plan {
    let r = &mut Rng::new(mix(seed) ^ mix(hash_str("C14") ^ run));
    let nightly = r.chance(1, 2);
    let mut p = Plan {
        minor: *r.pick(&[31, 56, 57, 65, 66, 78, 79, 80, 87, 88, 88, 89, 99, 101, 1000]),
        nightly,
        api: r.chance(3, 4),
        version: if r.chance(1, 10) { r.range(1, 6) as u32 } else { 0 },
        proc_macro: r.chance(9, 10),
        span_locations: r.chance(1, 2),
        exempt: r.chance(1, 3),
        restricted: nightly && r.chance(1, 6),
        wrapper: r.below(3) as u32,
        workspace_wrapper: r.below(3) as u32,
        target: r.chance(1, 2),
        flags: r.below(4) as u32,
        stage: r.chance(1, 12),
        missing: if r.chance(1, 25) { r.range(1, 2) as u32 } else { 0 },
        sessions: Vec::new(),
        head: format!("cfg={} seed={} run={}", cfg, seed, run),
    };
    let alone = r.chance(1, 3);
    let faulty = r.chance(2, 3);
    let mut boot = r.below(BOOTSTRAP.len());
    for n in 0..r.range(1, 6) {
        if n > 0 && r.chance(1, 2) {
            boot = r.below(BOOTSTRAP.len());
        }
        let k = if alone { 1 } else { r.range(1, 3) };
        let quiet = r.chance(1, 2);
        let rate = r.range(1, 6);
        let mut s = Session {
            bootstrap: boot,
            touched: if n > 0 && r.chance(1, 4) { r.range(1, 3) } else { 0 },
            forgotten: r.chance(1, 4),
            sched: (0..if k > 1 { 160 } else { 0 })
                .map(|_| if r.chance(1, rate) { r.range(1, k) as u8 } else { 0 })
                .collect(),
            scripts: Vec::new(),
        };
        for _ in 0..k {
            let mut f = Vec::new();
            if faulty && !quiet {
                for _ in 0..r.range(0, 4) {
                    f.push((r.range(1, 36) as u32, FAULTS[r.below(FAULTS.len())].0, r.u32() % 100));
                }
            }
            f.sort();
            f.dedup_by_key(|x| x.0);
            s.scripts.push(f);
        }
        p.sessions.push(s);
    }
    p
}

impl Plan {
    fn to_text(&self, note: &str) -> String {
        let mut o = String::new();
        for l in note.lines() {
            o.push_str(&format!("# {}\n", l));
        }
        o.push_str(&format!(
            "plan {} minor={} nightly={} api={} version={} proc_macro={} span_locations={} exempt={} restricted={} wrapper={} workspace_wrapper={} target={} flags={} stage={} missing={}\n",
            self.head, self.minor, self.nightly as u8, self.api as u8, self.version, self.proc_macro as u8, self.span_locations as u8,
            self.exempt as u8, self.restricted as u8, self.wrapper, self.workspace_wrapper, self.target as u8, self.flags, self.stage as u8, self.missing
        ));
        for s in &self.sessions {
            let sched: String = s.sched.iter().map(|b| char::from(b'0' + b)).collect();
            o.push_str(&format!("session bootstrap={} touched={} forgotten={} sched=.{}\n", s.bootstrap, s.touched, s.forgotten as u8, sched));
            for f in &s.scripts {
                o.push_str("script");
                for (n, k, v) in f {
                    o.push_str(&format!(" {}:{}:{}", n, k, v));
                }
                o.push('\n');
            }
        }
        o
    }
    fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan::default();
        for l in text.lines() {
            let mut w = l.split_whitespace();
            let kind = w.next().unwrap_or("#");
            match kind {
                "plan" | "session" => {
                    let m: BTreeMap<&str, &str> = w.filter_map(|x| x.split_once('=')).collect();
                    let g = |k: &str| m.get(k).and_then(|v| v.parse::<u32>().ok());
                    if kind == "plan" {
                        p = Plan {
                            minor: g("minor")?,
                            nightly: g("nightly")? > 0,
                            api: g("api")? > 0,
                            version: g("version")?,
                            proc_macro: g("proc_macro")? > 0,
                            span_locations: g("span_locations")? > 0,
                            exempt: g("exempt")? > 0,
                            restricted: g("restricted")? > 0,
                            wrapper: g("wrapper")?,
                            workspace_wrapper: g("workspace_wrapper")?,
                            target: g("target")? > 0,
                            flags: g("flags")?,
                            stage: g("stage")? > 0,
                            missing: g("missing")?,
                            sessions: Vec::new(),
                            head: format!("cfg={} seed={} run={}", m.get("cfg")?, m.get("seed")?, m.get("run")?),
                        };
                    } else {
                        p.sessions.push(Session {
                            bootstrap: g("bootstrap")? as usize % BOOTSTRAP.len(),
                            touched: g("touched")? as usize,
                            forgotten: g("forgotten")? > 0,
                            sched: m.get("sched")?.bytes().skip(1).map(|b| b - b'0').collect(),
                            scripts: Vec::new(),
                        });
                    }
                }
                "script" => {
                    let mut f = Vec::new();
                    for x in w {
                        let v: Vec<u32> = x.split(':').filter_map(|y| y.parse().ok()).collect();
                        f.push((*v.first()?, *v.get(1)? as u8, *v.get(2)?));
                    }
                    p.sessions.last_mut()?.scripts.push(f);
                }
                _ => {}
            }
        }
        if p.head.is_empty() {
            None
        } else {
            Some(p)
        }
    }
    fn size(&self) -> (usize, usize, usize) {
        (
            self.sessions.iter().map(|s| s.scripts.len()).sum(),
            self.sessions.iter().flat_map(|s| &s.scripts).map(|f| f.len()).sum(),
            self.sessions.iter().flat_map(|s| &s.sched).filter(|b| **b > 0).count(),
        )
    }
}

// --- running ----------------------------------------------------------------------

#[derive(Clone, Default, Debug, PartialEq)]
struct Outcome {
    class: String,
    msg: String,
    log: u64,
    comparisons: u64,
    points: u64,
    switches: u64,
    sessions: u64,
    skipped: u64,
    scripts: u64,
    faults: BTreeMap<u8, u64>,
    ops: BTreeMap<&'static str, u64>,
    rare: BTreeSet<&'static str>,
    states: Vec<u64>,
}

/// What the last successful build script run told cargo.
#[derive(Clone, Default)]
struct Record {
    cfgs: BTreeSet<String>,
    files: BTreeSet<String>,
    envs: BTreeSet<String>,
    bootstrap: usize,
    clean: bool,
    probed: BTreeSet<String>,
}

fn version_text(p: &Plan) -> Vec<u8> {
    match p.version {
        0 => format!("rustc 1.{}.0{} (0123456789 2026-01-01)\n", p.minor, if p.nightly { "-nightly" } else { "" }).into_bytes(),
        1 => b"".to_vec(),
        2 => b"rustc 2.0.0 (0123456789 2031-01-01)\n".to_vec(),
        3 => b"\xff\xfe\xfd".to_vec(),
        4 => b"mrustc 0.10.1\n".to_vec(),
        5 => format!("rustc 1.{}-dev.7\n", p.minor).into_bytes(),
        _ => format!("rustc 1.{}.0-beta.3\n", p.minor).into_bytes(),
    }
}

/// Reference: the minor version a version text stands for.
fn minor_of(v: &[u8]) -> Option<u32> {
    let t = std::str::from_utf8(v).ok()?;
    let t = t.strip_prefix("rustc 1.")?;
    let end = t.find('.').unwrap_or(t.len());
    t[..end].parse().ok()
}

fn lines<'a>(out: &'a str, key: &str) -> Vec<&'a str> {
    out.lines()
        .filter_map(|l| l.strip_prefix("cargo::").or_else(|| l.strip_prefix("cargo:")))
        .filter_map(|l| l.strip_prefix(key).and_then(|l| l.strip_prefix('=')))
        .collect()
}

fn execute(p: &Plan) -> Outcome {
    let mut o = Outcome::default();
    let mut dirs = BTreeMap::new();
    dirs.insert(OUT.to_string(), true);
    let mut record: Option<Record> = None;
    for (n, s) in p.sessions.iter().enumerate() {
        o.sessions += 1;
        if s.forgotten {
            record = None;
        }
        // Does cargo run the script again?
        let touched = if s.touched > 0 { Some(format!("src/probe/{}.rs", PROBES[s.touched - 1])) } else { None };
        let rerun = match &record {
            None => true,
            Some(r) => {
                let file = touched.as_ref().map_or(false, |f| (r.files.is_empty() && r.envs.is_empty()) || r.files.contains(f));
                let env = r.envs.contains("RUSTC_BOOTSTRAP") && r.bootstrap != s.bootstrap;
                file || env
            }
        };
        if !rerun {
            o.skipped += 1;
            let r = record.as_ref().unwrap();
            if let Some(f) = &touched {
                let probe = PROBES[s.touched - 1];
                if r.probed.contains(probe) {
                    o.class = "rerun".into();
                    o.msg = format!("build {}: {} changed and was probed before, but the script does not run again", n, f);
                    return o;
                }
            }
        } else {
            let done = session(p, s, &mut dirs, &mut o);
            if !o.class.is_empty() {
                o.msg = format!("build {}: {}", n, o.msg);
                return o;
            }
            record = done;
        }
        // What is in force now has to fit the compiler as it is now.
        if let Some(r) = &record {
            let t = tool(p);
            let boot = BOOTSTRAP[s.bootstrap].map(OsStr::new);
            let can = p.proc_macro && !p.stage && capable(&t, "proc_macro_span", boot, p.restricted);
            o.comparisons += 1;
            if r.cfgs.contains("proc_macro_span") && !can {
                o.class = "unsound".into();
                o.msg = format!(
                    "build {}: unstable features are in use, which the compiler does not allow (RUSTC_BOOTSTRAP={:?}, script run {})",
                    n, BOOTSTRAP[s.bootstrap], rerun
                );
                return o;
            }
            if r.clean && can && !r.cfgs.contains("proc_macro_span") {
                o.class = "missed".into();
                o.msg = format!(
                    "build {}: the compiler allows unstable features, which are not used (RUSTC_BOOTSTRAP={:?}, script run {})",
                    n, BOOTSTRAP[s.bootstrap], rerun
                );
                return o;
            }
        }
    }
    o
}

fn tool(p: &Plan) -> Tool {
    Tool { minor: p.minor, nightly: p.nightly, api: p.api, version: version_text(p) }
}

fn session(p: &Plan, s: &Session, dirs: &mut BTreeMap<String, bool>, o: &mut Outcome) -> Option<Record> {
    let mut scripts = Vec::new();
    for f in &s.scripts {
        let mut env = BTreeMap::new();
        let mut set = |k: &str, v: &str| {
            env.insert(k.to_string(), v.into());
        };
        if p.missing != 1 {
            set("RUSTC", "/simulated/rustc");
        }
        if p.missing != 2 {
            set("OUT_DIR", OUT);
        }
        for (k, v) in [("RUSTC_WRAPPER", p.wrapper), ("RUSTC_WORKSPACE_WRAPPER", p.workspace_wrapper)] {
            match v {
                1 => set(k, &format!("/simulated/{}", k.to_lowercase())),
                2 => set(k, ""),
                _ => {}
            }
        }
        if p.target {
            set("TARGET", "aarch64-simulated-none");
        }
        let mut flags: Vec<&str> = Vec::new();
        if p.flags & 1 > 0 {
            flags.push("-Copt-level=3");
        }
        if p.flags & 2 > 0 {
            flags.push("--cfg");
            flags.push("a b=\"c\"");
        }
        if p.restricted {
            flags.push("-Zallow-features=");
        }
        set("CARGO_ENCODED_RUSTFLAGS", &flags.join("\x1f"));
        if p.stage {
            set("RUSTC_STAGE", "1");
        }
        if let Some(b) = BOOTSTRAP[s.bootstrap] {
            set("RUSTC_BOOTSTRAP", b);
        }
        scripts.push(Script {
            env,
            proc_macro: p.proc_macro,
            span_locations: p.span_locations,
            semver_exempt: p.exempt,
            faults: f.iter().map(|(n, k, v)| (*n, (*k, *v))).collect(),
            ..Script::default()
        });
    }
    let k = scripts.len();
    let sim = Arc::new(Sim {
        st: Mutex::new(State {
            dirs: std::mem::take(dirs),
            tool: tool(p),
            scripts,
            alive: vec![true; k],
            turn: 0,
            sched: s.sched.clone(),
            pos: 0,
            switches: 0,
            points: 0,
            log: o.log ^ 0x1234_5678,
            ops: BTreeMap::new(),
        }),
        cv: Condvar::new(),
    });
    let one = |i: usize| {
        enter(&sim, i);
        let r = catch_unwind(AssertUnwindSafe(script::run));
        let mut exit = Some(0);
        let mut killed = false;
        let mut panicked = None;
        if let Err(e) = r {
            exit = None;
            if let Some(Exit(c)) = e.downcast_ref::<Exit>() {
                exit = Some(*c);
            } else if e.is::<Killed>() {
                killed = true;
            } else {
                panicked = Some(
                    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                );
            }
        }
        ended(exit, killed, panicked);
        leave();
    };
    if k == 1 {
        one(0);
    } else {
        std::thread::scope(|sc| {
            for i in 0..k {
                let one = &one;
                sc.spawn(move || one(i));
            }
        });
    }
    let st = Arc::try_unwrap(sim).ok().expect("everyone left").st.into_inner().unwrap();
    *dirs = st.dirs;
    o.points += st.points;
    o.switches += st.switches;
    o.scripts += k as u64;
    for (k, v) in &st.ops {
        *o.ops.entry(k).or_insert(0) += v;
    }
    o.log = st.log;
    for s in &st.scripts {
        o.log = mix(o.log ^ hash_str(&s.out) ^ hash_str(&s.err).rotate_left(7) ^ s.exit.unwrap_or(77) as u64);
        for f in &s.hit {
            *o.faults.entry(*f).or_insert(0) += 1;
        }
    }
    let fail = |o: &mut Outcome, c: &str, m: String| {
        if o.class.is_empty() {
            o.class = c.to_string();
            o.msg = m;
        }
    };
    let boot = BOOTSTRAP[s.bootstrap].map(OsStr::new);
    let t = tool(p);
    let crowd = k > 1;
    let mut best: Option<(u64, Record)> = None;
    let mut all_done = true;
    let mut probed = false;
    let mut torn_away = false;
    for (i, s) in st.scripts.iter().enumerate() {
        o.states.push(mix(
            hash_str(&format!("{:?}{:?}{:?}{:?}{}{}", lines(&s.out, "rustc-cfg"), s.exit, s.probes, s.hit, crowd, s.disturbed)),
        ));
        if let Some(m) = &s.panicked {
            fail(o, "panic", format!("script {} panicked: {}", i, m));
            return None;
        }
        if let Some(w) = s.wrong.first() {
            fail(o, "command", format!("script {} {}", i, w));
            return None;
        }
        if s.points_exceeded {
            fail(o, "progress", format!("script {} made more than {} calls without finishing", i, LIMIT));
            return None;
        }
        probed |= !s.probes.is_empty();
        torn_away |= s.cleanup_not_empty;
        if s.killed {
            all_done = false;
            o.rare.insert("script killed");
            if st.points > 0 && dirs.len() > 1 {
                o.rare.insert("files left by a killed script");
            }
            continue;
        }
        let code = s.exit.unwrap_or(0);
        // Failing is for a machine that fails, and says why.
        let env_missing = p.missing == 1 || (p.missing == 2 && p.proc_macro && !(p.stage));
        let excused = env_missing || s.setup_error || s.cleanup_error;
        o.comparisons += 1;
        if code != 0 {
            all_done = false;
            o.rare.insert("script gave up");
            if !excused {
                fail(o, "gave-up", format!("script {} exited with {} although nothing was wrong: {}", i, code, s.err.trim()));
                return None;
            }
            if s.err.trim().is_empty() {
                fail(o, "silent", format!("script {} exited with {} and does not say why", i, code));
                return None;
            }
            continue;
        }
        if s.setup_error || p.missing == 1 {
            fail(o, "ignored", format!("script {} succeeded although it had no place to probe or no compiler", i));
            return None;
        }
        if s.cleanup_not_empty {
            o.rare.insert("cleaning up lost against a network file system");
        }
        if s.disturbed && s.hit.is_empty() {
            o.rare.insert("probe disturbed by another script");
        }
        // The decision table.
        let cfgs: BTreeSet<String> = lines(&s.out, "rustc-cfg").iter().map(|x| x.to_string()).collect();
        let has = |c: &str| cfgs.contains(c);
        let clean = !s.disturbed && s.hit.is_empty();
        let can = |f: &str| capable(&t, f, boot, p.restricted);
        let minors: Vec<u32> = match &s.version {
            None => vec![u32::MAX],
            Some((v, true)) => vec![minor_of(v).unwrap_or(u32::MAX)],
            // A compiler that died while saying it: its words count or not.
            Some((v, false)) => vec![minor_of(v).unwrap_or(u32::MAX), u32::MAX],
        };
        let span = has("proc_macro_span");
        let verdict = |minor: u32| -> Result<u64, (String, String)> {
            let mut n = 0u64;
            let mut exact = |c: &str, want: bool| -> Result<(), (String, String)> {
                n += 1;
                if has(c) != want {
                    return Err(("decision".into(), format!("script {}: {} is {} but should be {} (version 1.{})", i, c, has(c), want, minor)));
                }
                Ok(())
            };
            exact("procmacro2_semver_exempt", p.exempt)?;
            exact("span_locations", p.exempt || p.span_locations)?;
            exact("no_is_available", minor < 57)?;
            exact("no_source_text", minor < 66)?;
            exact("no_literal_byte_character", minor < 79)?;
            exact("no_literal_c_string", minor < 79)?;
            exact("wrap_proc_macro", p.proc_macro && (span || !p.exempt))?;
            exact("super_unstable", p.proc_macro && p.exempt && span)?;
            if !p.proc_macro || p.stage {
                exact("proc_macro_span", false)?;
            }
            for f in ["proc_macro_span_location", "proc_macro_span_file"] {
                let possible = p.proc_macro && (span || (minor >= 88 && (p.stage || can(f))));
                if !possible || clean {
                    exact(f, possible)?;
                }
            }
            if minor >= 80 {
                let declared: Vec<&str> = lines(&s.out, "rustc-check-cfg");
                for c in &cfgs {
                    if !declared.contains(&format!("cfg({})", c).as_str()) {
                        return Err(("undeclared".into(), format!("script {}: {} is set but not declared", i, c)));
                    }
                }
            }
            Ok(n)
        };
        let mut bad = None;
        for m in minors {
            match verdict(m) {
                Ok(n) => {
                    o.comparisons += n;
                    bad = None;
                    break;
                }
                Err(e) => bad = Some(e),
            }
        }
        if let Some((c, m)) = bad {
            fail(o, &c, m);
            return None;
        }
        if span && !(p.proc_macro && can("proc_macro_span")) {
            fail(o, "unsound", format!("script {} turned on unstable features, which the compiler does not allow", i));
            return None;
        }
        if clean && !p.stage && p.proc_macro && can("proc_macro_span") && !span {
            fail(o, "missed", format!("script {} was undisturbed and did not find the unstable features", i));
            return None;
        }
        if span {
            o.rare.insert("unstable features found");
        }
        if boot.is_some() && span && !t.nightly {
            o.rare.insert("unstable features found by RUSTC_BOOTSTRAP");
        }
        let r = Record {
            cfgs,
            files: lines(&s.out, "rerun-if-changed").iter().map(|x| x.to_string()).collect(),
            envs: lines(&s.out, "rerun-if-env-changed").iter().map(|x| x.to_string()).collect(),
            bootstrap: BOOTSTRAP.iter().position(|b| b.map(OsStr::new) == boot).unwrap(),
            clean,
            probed: s.probes.iter().map(|x| x.0.clone()).collect(),
        };
        if best.as_ref().map_or(true, |b| b.0 <= s.finished) {
            best = Some((s.finished, r));
        }
    }
    // Nothing of the probing stays behind, also of what earlier runs left when killed.
    if all_done && probed && !torn_away {
        o.comparisons += 1;
        if let Some((f, _)) = dirs.iter().find(|(f, _)| f.as_str() != OUT) {
            fail(o, "left-behind", format!("every script finished, and {} is still there", f));
            return None;
        }
    }
    best.map(|b| b.1)
}

// --- minimising -------------------------------------------------------------------

fn minimise(p: &Plan, class: &str) -> (Plan, u32) {
    let mut p = p.clone();
    let mut tried = 0;
    let mut fails = |q: &Plan| {
        tried += 1;
        execute(q).class == class
    };
    loop {
        let before = p.clone();
        let mut i = 0;
        while i < p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            if !q.sessions.is_empty() && fails(&q) {
                p = q;
                continue;
            }
            let mut j = 0;
            while j < p.sessions[i].scripts.len() {
                let mut q = p.clone();
                q.sessions[i].scripts.remove(j);
                if !q.sessions[i].scripts.is_empty() && fails(&q) {
                    p = q;
                    continue;
                }
                let mut f = 0;
                while f < p.sessions[i].scripts[j].len() {
                    let mut q = p.clone();
                    q.sessions[i].scripts[j].remove(f);
                    if fails(&q) {
                        p = q;
                    } else {
                        f += 1;
                    }
                }
                j += 1;
            }
            let mut c = p.sessions[i].sched.len();
            while c > 0 {
                let mut a = 0;
                while a < p.sessions[i].sched.len() {
                    let e = (a + c).min(p.sessions[i].sched.len());
                    if p.sessions[i].sched[a..e].iter().any(|b| *b > 0) {
                        let mut q = p.clone();
                        q.sessions[i].sched[a..e].fill(0);
                        if fails(&q) {
                            p = q;
                        }
                    }
                    a = e;
                }
                c /= 2;
            }
            while p.sessions[i].sched.last() == Some(&0) {
                p.sessions[i].sched.pop();
            }
            i += 1;
        }
        let simpler: [fn(&mut Plan); 9] = [
            |q| q.version = 0,
            |q| q.wrapper = 0,
            |q| q.workspace_wrapper = 0,
            |q| q.target = false,
            |q| q.flags = 0,
            |q| q.stage = false,
            |q| q.missing = 0,
            |q| q.exempt = false,
            |q| q.span_locations = false,
        ];
        for f in simpler {
            let mut q = p.clone();
            f(&mut q);
            if q != p && fails(&q) {
                p = q;
            }
        }
        if p == before {
            return (p, tried);
        }
    }
}

// --- commands ---------------------------------------------------------------------

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn num(k: &str, d: u64) -> u64 {
    arg(k).and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn obj(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    match std::env::args().nth(1).as_deref() {
        Some("check") => check(),
        Some("replay") => replay(),
        Some("one") => {
            let p = plan(&arg("--cfg").unwrap_or("G".into()), num("--seed", 1), num("--run", 0));
            print!("{}", p.to_text(""));
            println!("{:?}", execute(&p));
        }
        _ => {
            eprintln!("usage: bsim check|replay|one …");
            std::process::exit(2)
        }
    }
}

fn replay() {
    let file = std::env::args().nth(2).expect("replay FILE");
    let text = std::fs::read_to_string(&file).expect("cannot read the replay file");
    let p = Plan::parse(&text).expect("not a replay file");
    let o = execute(&p);
    if o.class.is_empty() {
        println!("held: {} does not fail on this tree", file);
        std::process::exit(0);
    }
    println!("{}: {} (log {:016x})", o.class, o.msg, o.log);
    std::process::exit(1)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    comparisons: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    points: u64,
    switches: u64,
    scripts: u64,
    multi: u64,
    ops: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    rare: BTreeMap<String, u64>,
    redo: u64,
    redo_diff: u64,
    redo_last: u64,
}

fn check() {
    let t0 = Instant::now();
    let prop = arg("--prop").expect("--prop");
    let cfg = arg("--cfg").unwrap_or("G".into());
    let seed = num("--seed", 1);
    let runs = num("--runs", 1000);
    let jobs = num("--jobs", 8).max(1);
    let wall = num("--wall", 600);
    let redo = num("--redo", 40);
    let dir = arg("--replays").unwrap_or("/verif/replays".into());
    let found = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Totals::default());
    std::thread::scope(|sc| {
        for j in 0..jobs {
            let (cfg, total, found) = (&cfg, &total, &found);
            sc.spawn(move || {
                let mut k = j;
                while k < runs && k < found.load(SeqCst) && t0.elapsed().as_secs() < wall {
                    let p = plan(cfg, seed, k);
                    let o = execute(&p);
                    let again = if k < redo { Some(execute(&p)) } else { None };
                    let mut t = total.lock().unwrap();
                    t.runs += 1;
                    t.comparisons += o.comparisons;
                    t.points += o.points;
                    t.switches += o.switches;
                    t.scripts += o.scripts;
                    t.multi += p.sessions.iter().any(|s| s.scripts.len() > 1) as u64;
                    if o.comparisons > 0 && (o.sessions > 1 || o.switches > 0 || !o.faults.is_empty()) {
                        t.nontrivial += 1;
                        t.distinct.insert(o.log);
                    }
                    t.states.extend(o.states.iter().copied());
                    for (k, v) in &o.ops {
                        *t.ops.entry(k.to_string()).or_insert(0) += v;
                    }
                    *t.ops.entry("build without running the script".into()).or_insert(0) += o.skipped;
                    for (k, v) in &o.faults {
                        let name = FAULTS.iter().find(|f| f.0 == *k).unwrap().1;
                        *t.faults.entry(name.into()).or_insert(0) += v;
                        *t.fault_runs.entry(name.into()).or_insert(0) += 1;
                    }
                    for k in &o.rare {
                        *t.rare.entry(k.to_string()).or_insert(0) += 1;
                    }
                    if let Some(a) = again {
                        t.redo += 1;
                        if a != o {
                            t.redo_diff += 1;
                            t.redo_last = k;
                        }
                    }
                    drop(t);
                    if !o.class.is_empty() {
                        found.fetch_min(k, SeqCst);
                        break;
                    }
                    k += jobs;
                }
            });
        }
    });
    let searched = t0.elapsed().as_secs_f64();
    let t = total.into_inner().unwrap();
    let found = found.load(SeqCst);
    let mut violation = String::from("null");
    let mut code = 0;
    if found != u64::MAX {
        let p = plan(&cfg, seed, found);
        let o = execute(&p);
        if o.class.is_empty() {
            eprintln!("run {} failed once and passed when repeated; not reported", found);
            violation = format!("{{\"unstable_run\": {}}}", found);
        } else {
            let (small, tried) = minimise(&p, &o.class);
            let o2 = execute(&small);
            let path = format!("{}/{}-{}-s{}-r{}.replay", dir, prop, cfg, seed, found);
            let _ = std::fs::create_dir_all(&dir);
            let (a, b, c) = small.size();
            let (a0, b0, c0) = p.size();
            let note = format!(
                "property {} violated: {}\n{}\nseed {} run {} configuration {}\nminimised from {} scripts, {} faults, {} switches to {} scripts, {} faults, {} switches in {} executions\nlog {:016x}\nreplay: python3 /verif/check.py replay {}",
                prop, o2.class, o2.msg, seed, found, cfg, a0, b0, c0, a, b, c, tried, o2.log, path
            );
            std::fs::write(&path, small.to_text(&note)).expect("cannot write the replay file");
            println!("class {}: {}", o2.class, o2.msg);
            println!("REPLAY {}", path);
            violation = format!(
                "{{\"class\": {}, \"message\": {}, \"run\": {}, \"replay\": {}, \"minimised_ops\": {}}}",
                json(&o2.class), json(&o2.msg), found, json(&path), a
            );
            code = 1;
        }
    }
    let kinds = BTreeMap::from([("call into the system".to_string(), t.switches)]);
    let report = format!(
        "{{\"config\": {}, \"runs\": {}, \"first_run\": 0, \"seed\": {}, \"evaluations\": {}, \"nontrivial_runs\": {}, \"distinct\": {}, \"states\": {}, \"operations\": {}, \"ops\": {}, \"faults\": {}, \"fault_runs\": {}, \"probes\": {}, \"switch_points\": {}, \"context_switches\": {}, \"switches_by_kind\": {}, \"allocations\": 0, \"multi_threaded_runs\": {}, \"runs_inside_macro\": 0, \"determinism\": {{\"runs_executed_twice\": {}, \"differences\": {}, \"last_differing_run\": {}}}, \"search_s\": {:.2}, \"wall_s\": {:.2}, \"runs_per_hour\": {:.0}, \"violation\": {}}}",
        json(&cfg), t.runs, seed, t.comparisons, t.nontrivial, t.distinct.len(), t.states.len(), t.points, obj(&t.ops), obj(&t.faults), obj(&t.fault_runs), obj(&t.rare),
        t.points, t.switches, obj(&kinds), t.multi, t.redo, t.redo_diff, t.redo_last, searched, t0.elapsed().as_secs_f64(),
        t.runs as f64 / searched.max(0.01) * 3600.0, violation
    );
    match arg("--out") {
        Some(p) => std::fs::write(p, report).unwrap(),
        None => println!("{}", report),
    }
    std::process::exit(code)
}
