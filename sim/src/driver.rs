//! Many runs: seeds to plans, plans to child processes, failures to minimised
//! replay files, and everything to numbers.

use crate::plan::*;
use crate::profiles;
use crate::rng::mix;
use crate::run;
use crate::shared::{self, *};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let p = libc::personality(0xffffffff);
        if p < 0 || p as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("SIM_REEXEC").is_some() {
            return;
        }
        if libc::personality(p as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        use std::os::unix::process::CommandExt;
        let exe = std::env::current_exe().unwrap();
        let _ = std::process::Command::new(exe).args(std::env::args().skip(1)).env("SIM_REEXEC", "1").exec();
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub class: String,
    pub msg: String,
    pub log: u64,
    pub sched: u64,
}
impl Outcome {
    fn ok(&self) -> bool {
        self.class.is_empty()
    }
}

/// Fork, run, wait.
fn execute_raw(plan: &Plan, sh: *mut Shared, limit: u32, passes: u32) -> Outcome {
    shared::clear(sh);
    let mut st = 0;
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            run::child(plan.clone(), sh, limit, passes);
        }
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let s = unsafe { &*sh };
    let at = s.at.load(SeqCst);
    let here = format!("[thread {} op {}]", at >> 16, at & 0xffff);
    let (class, msg) = if s.verdict.load(SeqCst) == 2 {
        (s.class(), s.msg())
    } else if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGALRM => ("hang".into(), format!("{} no progress within {} s", here, limit)),
            s => ("crash".into(), format!("{} the process died of signal {}", here, s)),
        }
    } else if libc::WEXITSTATUS(st) != 0 || s.verdict.load(SeqCst) != 1 {
        ("crash".into(), format!("{} the process exited with status {}", here, libc::WEXITSTATUS(st)))
    } else {
        (String::new(), String::new())
    };
    Outcome { class, msg, log: s.loghash.load(SeqCst), sched: s.schedhash.load(SeqCst) }
}

fn limit_of(plan: &Plan) -> u32 {
    let marathon = plan.threads.iter().flat_map(|t| &t.ops).any(|o| o.k == K_MARATHON);
    if marathon {
        60
    } else {
        20
    }
}

/// Run a plan and decide whether it breaks the property.
fn execute(plan: &Plan, sh: *mut Shared) -> Outcome {
    let limit = limit_of(plan);
    let mut o = execute_raw(plan, sh, limit, 1);
    if o.class == "hang" {
        // Slow machine or real?
        o = execute_raw(plan, sh, limit * 3, 1);
    }
    if o.class == "leak?" {
        let (log, sched) = (o.log, o.sched);
        if !profiles::counts(&plan.prop, "leak") {
            return Outcome { class: String::new(), msg: String::new(), log, sched };
        }
        // Kept for good, or kept by every pass?
        let o3 = execute_raw(plan, sh, limit * 4, 4);
        o = Outcome { log, sched, ..o3 };
    }
    if !o.ok() && !profiles::counts(&plan.prop, &o.class) {
        o.class = String::new();
    }
    if profiles::needs_interleaving(&plan.prop) && (!o.ok() || plan.run % 4 == 0) {
        let alone = solo_map();
        for i in 0..plan.threads.len() {
            let solo = Plan { threads: vec![plan.threads[i].clone()], sched: vec![], ..plan.clone() };
            let so = execute_raw(&solo, alone, limit, 1);
            if !so.ok() && so.class != "leak?" {
                // Broken without any other thread: another property's matter.
                o.class = String::new();
                break;
            }
            // Everything the thread saw must be what it sees alone.  Which
            // allocation is the n-th is not part of that.
            let oom = plan.threads[i].ops.iter().any(|p| p.fault(F_OOM).is_some());
            // Inside a macro what a thread does first depends on whether another
            // one has made the choice of implementation already.
            let inside = plan.threads.iter().any(|t| t.inside);
            let (a, b) = unsafe { (&(*sh).obs[i], &(*alone).obs[0]) };
            if o.ok() && !oom && !inside && a.load(SeqCst) != b.load(SeqCst) {
                o.class = "differs".into();
                o.msg = format!("thread {} saw something else than it sees when it runs alone", i);
            }
        }
    }
    o
}

fn solo_map() -> *mut Shared {
    static MAP: AtomicU64 = AtomicU64::new(0);
    if MAP.load(SeqCst) == 0 {
        MAP.store(shared::map() as u64, SeqCst);
    }
    MAP.load(SeqCst) as *mut Shared
}

// --- statistics -------------------------------------------------------------------

const DISTINCT_BITS: usize = 1 << 24;

#[repr(C)]
struct Totals {
    runs: AtomicU64,
    min_found: AtomicU64,
    other_class: AtomicU64,
    ops: [AtomicU64; 64],
    fired: [AtomicU64; 32],
    fired_runs: [AtomicU64; 32],
    probes: [AtomicU64; 64],
    by_kind: [AtomicU64; 16],
    evals: AtomicU64,
    switches: AtomicU64,
    yields: AtomicU64,
    allocs: AtomicU64,
    steps: AtomicU64,
    multi: AtomicU64,
    inside: AtomicU64,
    redo: AtomicU64,
    redo_diff: AtomicU64,
    redo_first: AtomicU64,
    nontrivial: AtomicU64,
    bits: [AtomicU64; BITS / 64],
    distinct: [AtomicU64; DISTINCT_BITS / 64],
}

fn totals() -> &'static Totals {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Totals>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let t = &*(p as *const Totals);
        t.min_found.store(u64::MAX, SeqCst);
        t
    }
}

impl Totals {
    fn absorb(&self, plan: &Plan, s: &Shared, o: &Outcome) {
        self.runs.fetch_add(1, Relaxed);
        for i in 0..64 {
            self.ops[i].fetch_add(s.ops[i].load(Relaxed), Relaxed);
            self.probes[i].fetch_add(s.probes[i].load(Relaxed), Relaxed);
        }
        let mut any = false;
        for i in 0..32 {
            let n = s.fired[i].load(Relaxed);
            self.fired[i].fetch_add(n, Relaxed);
            if n > 0 {
                any = true;
                self.fired_runs[i].fetch_add(1, Relaxed);
            }
        }
        for i in 0..16 {
            self.by_kind[i].fetch_add(s.by_kind[i].load(Relaxed), Relaxed);
        }
        self.evals.fetch_add(s.evals.load(Relaxed), Relaxed);
        self.switches.fetch_add(s.switches.load(Relaxed), Relaxed);
        self.yields.fetch_add(s.yields.load(Relaxed), Relaxed);
        self.allocs.fetch_add(s.allocs.load(Relaxed), Relaxed);
        self.steps.fetch_add(s.steps.load(Relaxed), Relaxed);
        if plan.threads.len() > 1 {
            self.multi.fetch_add(1, Relaxed);
        }
        if plan.threads.iter().any(|t| t.inside) {
            self.inside.fetch_add(1, Relaxed);
        }
        for i in 0..BITS / 64 {
            let b = s.bits[i].load(Relaxed);
            if b != 0 {
                self.bits[i].fetch_or(b, Relaxed);
            }
        }
        let evals = s.evals.load(Relaxed);
        if evals > 0 && (any || s.switches.load(Relaxed) > 1 || plan.threads[0].ops.len() > 3) {
            self.nontrivial.fetch_add(1, Relaxed);
            let h = mix(o.log ^ mix(o.sched)) as usize % DISTINCT_BITS;
            self.distinct[h / 64].fetch_or(1 << (h % 64), Relaxed);
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn obj(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

// --- minimising -------------------------------------------------------------------

struct Shrink {
    sh: *mut Shared,
    class: String,
    left: u32,
    until: Instant,
    tried: u32,
}
impl Shrink {
    fn fails(&mut self, p: &Plan) -> bool {
        if self.left == 0 || Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        self.tried += 1;
        execute(p, self.sh).class == self.class
    }
    fn ops(&mut self, p: &mut Plan) {
        for t in 0..p.threads.len() {
            let mut chunk = p.threads[t].ops.len().next_power_of_two() / 2;
            while chunk > 0 {
                let mut i = 0;
                while i < p.threads[t].ops.len() {
                    let mut q = p.clone();
                    let end = (i + chunk).min(q.threads[t].ops.len());
                    q.threads[t].ops.drain(i..end);
                    if self.fails(&q) {
                        *p = q;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
    }
    fn faults(&mut self, p: &mut Plan) {
        for t in 0..p.threads.len() {
            for i in 0..p.threads[t].ops.len() {
                let mut k = 0;
                while k < p.threads[t].ops[i].f.len() {
                    let mut q = p.clone();
                    q.threads[t].ops[i].f.remove(k);
                    if self.fails(&q) {
                        *p = q;
                    } else {
                        k += 1;
                    }
                }
            }
        }
    }
    fn threads(&mut self, p: &mut Plan) {
        let mut t = 0;
        while p.threads.len() > 1 && t < p.threads.len() {
            let mut q = p.clone();
            q.threads.remove(t);
            if self.fails(&q) {
                *p = q;
            } else {
                t += 1;
            }
        }
    }
    fn schedule(&mut self, p: &mut Plan) {
        let mut n = p.sched.len();
        while n > 0 {
            let mut q = p.clone();
            q.sched.truncate(n / 2);
            if self.fails(&q) {
                *p = q;
                n = p.sched.len();
            } else {
                break;
            }
        }
        let mut chunk = p.sched.len().next_power_of_two() / 2;
        while chunk > 0 {
            let mut i = 0;
            while i < p.sched.len() {
                let end = (i + chunk).min(p.sched.len());
                if p.sched[i..end].iter().any(|&b| b != 0) {
                    let mut q = p.clone();
                    q.sched[i..end].iter_mut().for_each(|b| *b = 0);
                    if self.fails(&q) {
                        *p = q;
                    }
                }
                i = end;
            }
            chunk /= 2;
        }
        while p.sched.last() == Some(&0) {
            p.sched.pop();
        }
    }
    fn sizes(&mut self, p: &mut Plan) {
        for t in 0..p.threads.len() {
            for i in 0..p.threads[t].ops.len() {
                while p.threads[t].ops[i].k == K_PARSE && p.threads[t].ops[i].b > 0 {
                    let b = p.threads[t].ops[i].b;
                    let n = b >> 4;
                    let mut smaller = vec![0];
                    smaller.extend([n / 2, n - n / 4, n - n / 16, n.saturating_sub(1)].iter().filter(|&&x| x < n).map(|x| x << 4 | b & 15));
                    let old = p.clone();
                    for b in smaller {
                        let mut q = p.clone();
                        q.threads[t].ops[i].b = b;
                        if self.fails(&q) {
                            *p = q;
                            break;
                        }
                    }
                    if old.threads[t].ops[i].b == p.threads[t].ops[i].b {
                        break;
                    }
                }
                let o = &p.threads[t].ops[i];
                if matches!(o.k, K_PARSE | K_BAD | K_TORN | K_CORRUPT) && o.a % 8 > 0 {
                    for a in [0u32, 1, 5] {
                        if a >= p.threads[t].ops[i].a % 8 {
                            break;
                        }
                        let mut q = p.clone();
                        q.threads[t].ops[i].a = a;
                        if self.fails(&q) {
                            *p = q;
                            break;
                        }
                    }
                }
            }
        }
    }
}

fn minimise(plan: &Plan, class: &str, sh: *mut Shared) -> (Plan, u32) {
    let heavy = limit_of(plan) > 20 || class == "hang";
    let mut s = Shrink {
        sh,
        class: class.to_owned(),
        left: if heavy { 6 } else { 1500 },
        until: Instant::now() + std::time::Duration::from_secs(45),
        tried: 0,
    };
    let mut p = plan.clone();
    if heavy {
        return (p, 0);
    }
    loop {
        let before = p.size();
        s.threads(&mut p);
        s.ops(&mut p);
        s.faults(&mut p);
        s.schedule(&mut p);
        s.sizes(&mut p);
        if p.size() == before {
            break;
        }
    }
    (p, s.tried)
}

// --- commands ---------------------------------------------------------------------

pub fn main() {
    no_aslr();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    run::warm_up();
    match cmd.as_str() {
        "check" => check(),
        "replay" => replay(),
        "one" => one(),
        "linear" => linear_selftest(),
        _ => {
            eprintln!("usage: sim check|replay|one …");
            std::process::exit(2)
        }
    }
}

/// The history checker itself, on histories with a known verdict.
fn linear_selftest() {
    use crate::history::{linearizable, Event, What::*};
    let e = |thread, what, inside, inv, res| Event { thread, what, inside, inv, res };
    let yes: &[&[Event]] = &[
        &[e(0, Use(true), true, 0, 1), e(1, Use(true), false, 2, 3)],
        &[e(0, Use(false), true, 0, 5), e(1, Force, false, 1, 2)],
        &[e(0, Use(true), true, 0, 5), e(1, Force, false, 1, 2)],
        &[e(0, Force, true, 0, 1), e(0, Unforce, true, 2, 3), e(0, Use(true), true, 4, 5)],
        &[e(0, Use(false), true, 0, 9), e(1, Use(true), false, 1, 2), e(2, Force, false, 3, 4)],
    ];
    let no: &[&[Event]] = &[
        &[e(0, Force, true, 0, 1), e(0, Use(true), true, 2, 3)],
        &[e(0, Use(true), true, 0, 5), e(1, Force, false, 1, 2), e(1, Use(true), true, 6, 7)],
        &[e(0, Use(true), true, 0, 1), e(1, Use(false), false, 2, 3)],
        &[e(0, Unforce, true, 0, 1), e(1, Use(false), false, 2, 3)],
    ];
    let ok = yes.iter().all(|h| linearizable(h)) && !no.iter().any(|h| linearizable(h));
    println!("{}", if ok { "ok" } else { "WRONG" });
    std::process::exit(!ok as i32)
}

fn one() {
    let plan = profiles::plan(&arg("--prop").unwrap(), &arg("--cfg").unwrap_or("?".into()), num("--seed", 1), num("--run", 0));
    if std::env::args().any(|a| a == "--print") {
        print!("{}", plan.to_text(""));
    }
    let sh = shared::map();
    let o = execute(&plan, sh);
    println!("{:?}", o);
}

fn replay() {
    let file = std::env::args().nth(2).expect("replay FILE");
    let text = std::fs::read_to_string(&file).expect("cannot read the replay file");
    let plan = Plan::parse(&text).expect("not a replay file");
    let sh = shared::map();
    let o = execute(&plan, sh);
    if o.ok() {
        println!("held: {} does not fail on this tree", file);
        std::process::exit(0);
    }
    println!("{}: {} (log {:016x}, schedule {:016x})", o.class, o.msg, o.log, o.sched);
    std::process::exit(1)
}

fn check() {
    let t0 = Instant::now();
    let prop = arg("--prop").expect("--prop");
    let cfg = arg("--cfg").expect("--cfg");
    let seed = num("--seed", 1);
    let first = num("--first", 0);
    let runs = num("--runs", 1000);
    let jobs = num("--jobs", 8).max(1);
    let wall = num("--wall", 600);
    let redo = num("--redo", 40);
    let dir = arg("--replays").unwrap_or("/verif/replays".into());
    let out = arg("--out");
    let tot = totals();
    let mut pids = Vec::new();
    for j in 0..jobs {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                let sh = shared::map();
                let mut k = first + j;
                while k < first + runs && k < tot.min_found.load(SeqCst) && t0.elapsed().as_secs() < wall {
                    let plan = profiles::plan(&prop, &cfg, seed, k);
                    let o = execute(&plan, sh);
                    tot.absorb(&plan, &*sh, &o);
                    if !o.ok() {
                        tot.min_found.fetch_min(k, SeqCst);
                        eprintln!("run {}: {} {}", k, o.class, o.msg);
                        break;
                    }
                    // One seed, one execution: run some twice and compare.
                    if (k - first) / jobs < redo / jobs + 1 && limit_of(&plan) <= 20 {
                        tot.redo.fetch_add(1, SeqCst);
                        let p = execute(&plan, sh);
                        if p != o {
                            tot.redo_diff.fetch_add(1, SeqCst);
                            tot.redo_first.store(k, SeqCst);
                        }
                    }
                    k += jobs;
                }
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    }
    let searched = t0.elapsed().as_secs_f64();
    let sh = shared::map();
    let found = tot.min_found.load(SeqCst);
    let mut violation = String::from("null");
    let mut code = 0;
    if found != u64::MAX {
        let plan = profiles::plan(&prop, &cfg, seed, found);
        let o = execute(&plan, sh);
        if o.ok() {
            eprintln!("run {} failed once and passed when repeated; not reported", found);
            violation = format!("{{\"unstable_run\": {}}}", found);
        } else {
            let (small, tried) = minimise(&plan, &o.class, sh);
            let again = |p: &Plan| if o.class == "hang" { o.clone() } else { execute(p, sh) };
            let o2 = again(&small);
            let o3 = again(&small);
            let (small, o2) = if o2.class == o.class && o2 == o3 { (small, o2) } else { (plan.clone(), o.clone()) };
            let path = format!("{}/{}-{}-s{}-r{}.replay", dir, prop, cfg, seed, found);
            let _ = std::fs::create_dir_all(&dir);
            let (a, b, c) = small.size();
            let (a0, b0, c0) = plan.size();
            let note = format!(
                "property {} violated: {}\n{}\nseed {} run {} configuration {}\nminimised from {} ops, {} faults, {} switches to {} ops, {} faults, {} switches in {} executions\nlog {:016x} schedule {:016x}\nreplay: python3 /verif/check.py replay {}",
                prop, o2.class, o2.msg, seed, found, cfg, a0, b0, c0, a, b, c, tried, o2.log, o2.sched, path
            );
            std::fs::write(&path, small.to_text(&note)).expect("cannot write the replay file");
            println!("class {}: {}", o2.class, o2.msg);
            println!("REPLAY {}", path);
            violation = format!(
                "{{\"class\": {}, \"message\": {}, \"run\": {}, \"replay\": {}, \"minimised_ops\": {}}}",
                json(&o2.class),
                json(&o2.msg),
                found,
                json(&path),
                a
            );
            code = 1;
        }
    }
    let n = tot.runs.load(SeqCst);
    let distinct: u64 = tot.distinct.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum();
    let states: u64 = tot.bits.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum();
    let mut ops = BTreeMap::new();
    for (k, name) in OP_NAMES {
        let v = tot.ops[*k as usize].load(Relaxed);
        if v > 0 {
            ops.insert(name.to_string(), v);
        }
    }
    let mut faults = BTreeMap::new();
    let mut fault_runs = BTreeMap::new();
    for (k, name) in FAULT_NAMES {
        let v = tot.fired[*k as usize].load(Relaxed);
        if v > 0 {
            faults.insert(name.to_string(), v);
            fault_runs.insert(name.to_string(), tot.fired_runs[*k as usize].load(Relaxed));
        }
    }
    let mut probes = BTreeMap::new();
    for (i, name) in PROBE_NAMES.iter().enumerate() {
        let v = tot.probes[i].load(Relaxed);
        if v > 0 {
            probes.insert(name.to_string(), v);
        }
    }
    let mut kinds = BTreeMap::new();
    for (i, name) in ["", "operation boundary", "allocation", "instruction", "iterator callback", "sink callback", "compiler call", "", "blocked on a lock"]
        .iter()
        .enumerate()
    {
        let v = tot.by_kind[i].load(Relaxed);
        if v > 0 && !name.is_empty() {
            kinds.insert(name.to_string(), v);
        }
    }
    let g = |a: &AtomicU64| a.load(Relaxed);
    let total_ops: u64 = tot.ops.iter().map(g).sum();
    let report = format!(
        "{{\"config\": {}, \"runs\": {}, \"first_run\": {}, \"seed\": {}, \"evaluations\": {}, \"nontrivial_runs\": {}, \"distinct\": {}, \"states\": {}, \"operations\": {}, \"ops\": {}, \"faults\": {}, \"fault_runs\": {}, \"probes\": {}, \"switch_points\": {}, \"context_switches\": {}, \"switches_by_kind\": {}, \"allocations\": {}, \"multi_threaded_runs\": {}, \"runs_inside_macro\": {}, \"determinism\": {{\"runs_executed_twice\": {}, \"differences\": {}, \"last_differing_run\": {}}}, \"search_s\": {:.2}, \"wall_s\": {:.2}, \"runs_per_hour\": {:.0}, \"violation\": {}}}",
        json(&cfg), n, first, seed, g(&tot.evals), g(&tot.nontrivial), distinct, states, total_ops, obj(&ops), obj(&faults), obj(&fault_runs), obj(&probes),
        g(&tot.yields), g(&tot.switches), obj(&kinds), g(&tot.allocs), g(&tot.multi), g(&tot.inside), g(&tot.redo), g(&tot.redo_diff), g(&tot.redo_first),
        searched, t0.elapsed().as_secs_f64(), n as f64 / searched.max(0.01) * 3600.0, violation
    );
    match out {
        Some(p) => std::fs::write(p, report).unwrap(),
        None => println!("{}", report),
    }
    std::process::exit(code)
}
