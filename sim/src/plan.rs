//! A plan is one execution: the workload of every simulated thread, every
//! fault, and every scheduling decision.  It is generated from a seed and it
//! is also the replay file.

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub s: u64,
    pub f: Vec<(u8, u32)>,
}

#[derive(Clone, Debug)]
pub struct ThreadPlan {
    pub stack_kb: u32,
    /// Runs inside a (simulated) macro expansion.
    pub inside: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub cfg: String,
    pub seed: u64,
    pub run: u64,
    pub threads: Vec<ThreadPlan>,
    pub sched: Vec<u8>,
}

macro_rules! kinds {
    ($($name:ident = $v:expr, $s:expr;)*) => {
        $(pub const $name: u8 = $v;)*
        pub const OP_NAMES: &[(u8, &str)] = &[$(($v, $s)),*];
    };
}
kinds! {
    K_PARSE = 1, "parse";
    K_BAD = 2, "parse-bad";
    K_TORN = 3, "parse-torn";
    K_LIT = 4, "literal-parse";
    K_NEW = 5, "new-token";
    K_CLONE = 6, "clone";
    K_DROP = 7, "drop";
    K_EXT_TREES = 8, "extend-tokens";
    K_EXT_STREAMS = 9, "extend-streams";
    K_COLLECT = 10, "collect";
    K_ITER = 11, "iterate";
    K_ITER_NEXT = 12, "iter-next";
    K_ITER_END = 13, "iter-finish";
    K_GROUP = 14, "group";
    K_UNGROUP = 15, "group-stream";
    K_SET_SPAN = 16, "set-span";
    K_SPAN = 17, "take-span";
    K_JOIN = 18, "span-join";
    K_SUBSPAN = 19, "subspan";
    K_AT = 20, "resolved-located";
    K_CHECK = 21, "check-stream";
    K_CHECK_SPAN = 22, "check-span";
    K_FMT = 23, "format";
    K_INVALIDATE = 24, "invalidate";
    K_STALE = 25, "stale-span";
    K_MISUSE = 26, "misuse";
    K_KILL = 27, "kill-thread";
    K_FORCE = 28, "force";
    K_UNFORCE = 29, "unforce";
    K_OBSERVE = 30, "observe-mode";
    K_CONVERT = 31, "convert";
    K_DEEP = 32, "deep-nest";
    K_STASH = 33, "stash-in-tls";
    K_FROM_TREE = 34, "stream-from-token";
    K_EXT_TYPED = 35, "extend-typed";
    K_MARATHON = 36, "marathon";
    K_EXPANSION = 37, "next-expansion";
    K_CHECK_ALL = 38, "check-all";
    K_RELEASE = 39, "memory-release";
    K_LEAVE = 40, "leave-macro";
    K_ENTER = 41, "enter-macro";
    K_IDENT_CMP = 42, "ident-compare";
    K_CORRUPT = 43, "parse-corrupt";
    K_HFORCE = 44, "force (recorded)";
    K_HUNFORCE = 45, "unforce (recorded)";
    K_HOBSERVE = 46, "use (recorded)";
}

macro_rules! kinds2 {
    ($($name:ident = $v:expr, $s:expr;)*) => {
        $(pub const $name: u8 = $v;)*
        pub const FAULT_NAMES: &[(u8, &str)] = &[$(($v, $s)),*];
    };
}
kinds2! {
    F_ITER_PANIC = 1, "iterator-panic";
    F_HINT = 2, "lying-size-hint";
    F_REENTER = 3, "reentrant-callback";
    F_OOM = 4, "allocation-failure";
    F_AYIELD = 5, "preempt-at-allocation";
    F_STEP = 6, "preempt-at-instruction";
    F_SINK_ERR = 7, "sink-error";
    F_SINK_PANIC = 8, "sink-panic";
    F_RPC = 9, "compiler-call-panic";
    F_LEX_ERR = 10, "compiler-lex-error";
    F_LEX_PANIC = 11, "compiler-lex-panic";
    F_SINK_REENTER = 12, "reentrant-sink";
    F_KILL = 13, "thread-kill";
    F_STACK = 14, "small-stack";
    F_IO = 15, "torn-or-corrupt-read";
    F_INVALIDATE = 16, "invalidation";
    F_TEARDOWN = 17, "thread-teardown";
    F_MISUSE = 18, "caught-misuse-panic";
    F_STALE = 19, "stale-span-use";
    F_MODE = 20, "mode-switch";
    F_SHARED = 21, "preempt-at-static-memory";
}

pub fn op_name(k: u8) -> &'static str {
    OP_NAMES.iter().find(|x| x.0 == k).map_or("?", |x| x.1)
}
pub fn fault_name(k: u8) -> &'static str {
    FAULT_NAMES.iter().find(|x| x.0 == k).map_or("?", |x| x.1)
}

impl Op {
    pub fn new(k: u8) -> Op {
        Op { k, a: 0, b: 0, c: 0, s: 0, f: Vec::new() }
    }
    pub fn fault(&self, k: u8) -> Option<u32> {
        self.f.iter().find(|x| x.0 == k).map(|x| x.1)
    }
    pub fn faults(&self, k: u8) -> impl Iterator<Item = u32> + '_ {
        self.f.iter().filter(move |x| x.0 == k).map(|x| x.1)
    }
}

impl Plan {
    pub fn size(&self) -> (usize, usize, usize) {
        (
            self.threads.iter().map(|t| t.ops.len()).sum(),
            self.threads.iter().flat_map(|t| &t.ops).map(|o| o.f.len()).sum(),
            self.sched.iter().filter(|&&b| b != 0).count(),
        )
    }

    pub fn to_text(&self, comment: &str) -> String {
        let mut s = String::new();
        s.push_str("# proc-macro2 simulator replay file\n");
        for l in comment.lines() {
            s.push_str(&format!("# {}\n", l));
        }
        s.push_str(&format!(
            "plan prop={} cfg={} seed={} run={}\n",
            self.prop, self.cfg, self.seed, self.run
        ));
        s.push_str("sched ");
        for b in &self.sched {
            s.push_str(&format!("{:02x}", b));
        }
        s.push('\n');
        for t in &self.threads {
            s.push_str(&format!("thread stack_kb={} inside={}\n", t.stack_kb, t.inside as u8));
            for o in &t.ops {
                s.push_str(&format!("  op {} {} {} {} {}", o.k, o.a, o.b, o.c, o.s));
                for (k, v) in &o.f {
                    s.push_str(&format!(" !{}:{}", k, v));
                }
                s.push_str(&format!("   # {}", op_name(o.k)));
                for (k, v) in &o.f {
                    s.push_str(&format!(" +{}({})", fault_name(*k), v));
                }
                s.push('\n');
            }
        }
        s
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan {
            prop: String::new(),
            cfg: String::new(),
            seed: 0,
            run: 0,
            threads: Vec::new(),
            sched: Vec::new(),
        };
        for line in text.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut w = line.split_whitespace();
            match w.next() {
                None => {}
                Some("plan") => {
                    for kv in w {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "prop" => p.prop = v.into(),
                            "cfg" => p.cfg = v.into(),
                            "seed" => p.seed = v.parse().ok()?,
                            "run" => p.run = v.parse().ok()?,
                            _ => {}
                        }
                    }
                }
                Some("sched") => {
                    let h = w.next().unwrap_or("");
                    for i in (0..h.len() / 2 * 2).step_by(2) {
                        p.sched.push(u8::from_str_radix(&h[i..i + 2], 16).ok()?);
                    }
                }
                Some("thread") => {
                    let mut t = ThreadPlan { stack_kb: 256, inside: false, ops: Vec::new() };
                    for kv in w {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "stack_kb" => t.stack_kb = v.parse().ok()?,
                            "inside" => t.inside = v == "1",
                            _ => {}
                        }
                    }
                    p.threads.push(t);
                }
                Some("op") => {
                    let mut n = || w.next()?.parse::<u64>().ok();
                    let mut o = Op::new(n()? as u8);
                    o.a = n()? as u32;
                    o.b = n()? as u32;
                    o.c = n()? as u32;
                    o.s = n()?;
                    for f in w {
                        let (k, v) = f.strip_prefix('!')?.split_once(':')?;
                        o.f.push((k.parse().ok()?, v.parse().ok()?));
                    }
                    p.threads.last_mut()?.ops.push(o);
                }
                Some(_) => return None,
            }
        }
        Some(p)
    }
}
