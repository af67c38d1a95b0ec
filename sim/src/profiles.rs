//! From a seed to a plan: what each property's simulated runs look like.

use crate::plan::*;
use crate::rng::{hash_str, mix, Rng};

#[allow(dead_code)]
pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
];

const BRIDGE: bool = cfg!(feature = "bridge");
const SPANS: bool = cfg!(feature = "spans");
const NIGHTLY: bool = cfg!(feature = "nightly");

/// Which kinds of failure break the property.
pub fn counts(prop: &str, class: &str) -> bool {
    match prop {
        "C13" => matches!(class, "leak" | "heap" | "crash" | "handle" | "release"),
        "C06" => matches!(class, "lin" | "deadlock" | "hang" | "crash" | "panic"),
        "C02" => class != "leak",
        _ => true,
    }
}

/// Does a failure count only if every thread alone is fine?
pub fn needs_interleaving(prop: &str) -> bool {
    prop == "C02"
}

type W = &'static [(u8, u32)];

const SPANNY: W = &[
    (K_PARSE, 20), (K_BAD, 8), (K_TORN, 4), (K_LIT, 6), (K_NEW, 3), (K_CLONE, 3), (K_DROP, 3), (K_EXT_TREES, 4),
    (K_EXT_STREAMS, 3), (K_COLLECT, 2), (K_ITER, 4), (K_ITER_NEXT, 7), (K_ITER_END, 2), (K_GROUP, 3), (K_UNGROUP, 3),
    (K_SET_SPAN, 5), (K_SPAN, 12), (K_JOIN, 9), (K_SUBSPAN, 9), (K_AT, 4), (K_CHECK, 6), (K_CHECK_SPAN, 12),
    (K_MISUSE, 2), (K_CHECK_ALL, 1), (K_FMT, 1), (K_FROM_TREE, 2), (K_CORRUPT, 2),
];
const VALUES: W = &[
    (K_PARSE, 8), (K_LIT, 4), (K_NEW, 14), (K_CLONE, 14), (K_DROP, 8), (K_EXT_TREES, 18), (K_EXT_TYPED, 8),
    (K_EXT_STREAMS, 14), (K_COLLECT, 10), (K_FROM_TREE, 6), (K_ITER, 9), (K_ITER_NEXT, 14), (K_ITER_END, 6),
    (K_GROUP, 8), (K_UNGROUP, 8), (K_SET_SPAN, 4), (K_SPAN, 2), (K_CHECK, 6), (K_CHECK_ALL, 2), (K_FMT, 3),
    (K_IDENT_CMP, 2), (K_BAD, 1),
];
const INVAL: W = &[
    (K_PARSE, 18), (K_BAD, 6), (K_LIT, 6), (K_CLONE, 4), (K_DROP, 3), (K_EXT_TREES, 5), (K_EXT_STREAMS, 4), (K_ITER, 3),
    (K_ITER_NEXT, 5), (K_GROUP, 3), (K_UNGROUP, 3), (K_SET_SPAN, 3), (K_SPAN, 12), (K_JOIN, 5), (K_SUBSPAN, 4),
    (K_CHECK, 6), (K_CHECK_SPAN, 8), (K_CHECK_ALL, 3), (K_INVALIDATE, 12), (K_STALE, 8), (K_RELEASE, 1), (K_FMT, 2),
    (K_NEW, 2), (K_MISUSE, 1),
];
const INSIDE: W = &[
    (K_PARSE, 8), (K_LIT, 5), (K_BAD, 2), (K_NEW, 14), (K_CLONE, 12), (K_DROP, 6), (K_EXT_TREES, 18), (K_EXT_TYPED, 7),
    (K_EXT_STREAMS, 12), (K_COLLECT, 8), (K_FROM_TREE, 6), (K_ITER, 9), (K_ITER_NEXT, 12), (K_ITER_END, 6), (K_GROUP, 8),
    (K_UNGROUP, 8), (K_SET_SPAN, 8), (K_SPAN, 8), (K_JOIN, 5), (K_SUBSPAN, 5), (K_AT, 5), (K_CHECK, 5), (K_CHECK_SPAN, 5),
    (K_CHECK_ALL, 2), (K_FMT, 5), (K_CONVERT, 7), (K_EXPANSION, 3), (K_IDENT_CMP, 2), (K_MISUSE, 1), (K_TORN, 1),
];
const MODES: W = &[
    (K_PARSE, 8), (K_LIT, 3), (K_NEW, 12), (K_CLONE, 7), (K_DROP, 4), (K_EXT_TREES, 14), (K_EXT_STREAMS, 10),
    (K_EXT_TYPED, 4), (K_COLLECT, 10), (K_FROM_TREE, 6), (K_ITER, 5), (K_ITER_NEXT, 6), (K_ITER_END, 4), (K_GROUP, 6),
    (K_UNGROUP, 5), (K_SET_SPAN, 7), (K_SPAN, 6), (K_JOIN, 4), (K_AT, 5), (K_CHECK, 4), (K_CHECK_ALL, 2), (K_FMT, 4),
    (K_CONVERT, 8), (K_EXPANSION, 3), (K_IDENT_CMP, 4), (K_FORCE, 9), (K_UNFORCE, 9), (K_OBSERVE, 14), (K_LEAVE, 4),
    (K_ENTER, 4), (K_BAD, 2),
];
const INVALID: W = &[
    (K_BAD, 30), (K_TORN, 12), (K_CORRUPT, 10), (K_LIT, 16), (K_PARSE, 14), (K_CHECK_ALL, 3), (K_EXT_STREAMS, 4), (K_EXT_TREES, 4),
    (K_EXPANSION, 2), (K_CHECK, 3), (K_CONVERT, 2), (K_COLLECT, 2),
];
const FMT: W = &[
    (K_PARSE, 14), (K_LIT, 4), (K_NEW, 8), (K_CLONE, 4), (K_EXT_TREES, 6), (K_EXT_STREAMS, 5), (K_GROUP, 6),
    (K_UNGROUP, 2), (K_ITER, 3), (K_ITER_NEXT, 2), (K_FMT, 50), (K_CHECK_ALL, 3), (K_BAD, 3), (K_SPAN, 2), (K_FROM_TREE, 3), (K_COLLECT, 3),
];
const DEEP: W = &[(K_DEEP, 30), (K_PARSE, 6), (K_CHECK_ALL, 4), (K_CLONE, 3), (K_EXT_STREAMS, 3), (K_BAD, 3)];
const TEAR: W = &[
    (K_STASH, 22), (K_PARSE, 16), (K_NEW, 6), (K_CLONE, 8), (K_EXT_TREES, 6), (K_GROUP, 5), (K_UNGROUP, 3), (K_ITER, 6),
    (K_ITER_NEXT, 4), (K_KILL, 3), (K_SPAN, 3), (K_CHECK_ALL, 2), (K_INVALIDATE, 3), (K_BAD, 3), (K_COLLECT, 3),
    (K_DROP, 3),
];
/// Short operations that look things up, for preemption inside of them.
const RACE: W = &[
    (K_PARSE, 14), (K_BAD, 4), (K_LIT, 8), (K_NEW, 8), (K_CLONE, 4), (K_DROP, 3), (K_EXT_TREES, 5), (K_EXT_STREAMS, 3),
    (K_ITER, 2), (K_ITER_NEXT, 3), (K_GROUP, 3), (K_SET_SPAN, 3), (K_SPAN, 10), (K_JOIN, 8), (K_SUBSPAN, 6), (K_AT, 2),
    (K_CHECK, 8), (K_CHECK_SPAN, 26), (K_FMT, 5), (K_INVALIDATE, 4), (K_IDENT_CMP, 2), (K_COLLECT, 2),
];
const DAMAGE: W = &[
    (K_TORN, 22), (K_CORRUPT, 34), (K_BAD, 10), (K_PARSE, 12), (K_SPAN, 4), (K_CHECK_SPAN, 6), (K_CHECK_ALL, 4),
    (K_INVALIDATE, 2), (K_LIT, 4), (K_EXT_STREAMS, 3),
];

struct G<'a> {
    r: &'a mut Rng,
    /// Fault kinds this run may use, with probability (of 100) per candidate.
    faults: Vec<(u8, usize)>,
    multi: bool,
    inside: bool,
}

impl G<'_> {
    fn pct(&self, k: u8) -> usize {
        self.faults.iter().find(|f| f.0 == k).map_or(0, |f| f.1)
    }
    fn on(&mut self, k: u8) -> bool {
        let p = self.pct(k);
        p > 0 && self.r.below(100) < p
    }
    fn pick(&mut self, w: &[(u8, u32)]) -> u8 {
        let total: u32 = w.iter().map(|x| x.1).sum();
        let mut x = self.r.below(total.max(1) as usize) as u32;
        for (k, n) in w {
            if x < *n {
                return *k;
            }
            x -= n;
        }
        w[0].0
    }
    fn op(&mut self, k: u8) -> Op {
        let mut o = Op::new(k);
        o.a = self.r.u32() & 0xffff;
        o.b = self.r.u32() & 0xffff;
        o.c = self.r.u32() & 0xffff;
        o.s = self.r.next();
        if k == K_PARSE {
            o.c = match self.r.below(120) {
                0 => self.r.log(300) as u32,
                1..=10 => self.r.range(1, 3) as u32,
                _ => 0,
            };
            // One in many texts has something very long in it.
            o.b = 0;
            let calm = !self.multi || self.pct(F_STEP) + self.pct(F_SHARED) == 0;
            if o.c == 0 && calm && self.r.chance(1, 250) {
                let n = match self.r.below(3) {
                    0 => self.r.range(240, 300),
                    1 => self.r.range(65500, 65600),
                    _ => self.r.log(100_000),
                };
                o.b = (n as u32) << 4 | 1 + self.r.below(12) as u32;
            }
        }
        let iterates = matches!(k, K_EXT_TREES | K_EXT_TYPED | K_EXT_STREAMS | K_COLLECT);
        if iterates {
            if self.on(F_ITER_PANIC) {
                o.f.push((F_ITER_PANIC, self.r.range(1, 6) as u32));
            }
            if self.on(F_HINT) {
                o.f.push((F_HINT, self.r.range(1, 5) as u32));
            }
            if k != K_COLLECT && self.on(F_REENTER) {
                let v = (self.r.below(4) << 8 | self.r.below(8)) as u32;
                o.f.push((F_REENTER, v));
            }
        }
        if k == K_FMT {
            if self.on(F_SINK_ERR) {
                o.f.push((F_SINK_ERR, 1 + self.r.log(64) as u32));
            } else if self.on(F_SINK_PANIC) {
                o.f.push((F_SINK_PANIC, 1 + self.r.log(64) as u32));
            }
            // The compiler's library may not be re-entered while it prints.
            if !self.inside && self.on(F_SINK_REENTER) {
                let v = (self.r.log(24) << 8 | self.r.below(8)) as u32;
                o.f.push((F_SINK_REENTER, v));
            }
        }
        let plain = matches!(
            k,
            K_PARSE | K_BAD | K_TORN | K_CORRUPT | K_LIT | K_NEW | K_CLONE | K_DROP | K_EXT_TREES | K_EXT_TYPED
                | K_EXT_STREAMS | K_COLLECT | K_ITER | K_ITER_NEXT | K_ITER_END | K_GROUP | K_UNGROUP | K_SET_SPAN
                | K_FMT | K_FROM_TREE | K_AT | K_SPAN
        );
        if plain && NIGHTLY && !self.inside && self.on(F_OOM) {
            o.f.push((F_OOM, 1 + self.r.log(48) as u32));
        }
        if self.multi {
            if self.on(F_AYIELD) {
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    let v = 1 + self.r.log(64) as u32;
                    o.f.push((F_AYIELD, v));
                }
            }
            if self.on(F_STEP) {
                let n = self.r.range(1, 2);
                for _ in 0..n {
                    let v = 1 + self.r.log(3000) as u32;
                    o.f.push((F_STEP, v));
                }
            }
            if self.on(F_SHARED) {
                o.f.extend(shared_targets(self.r));
            }
        }
        if BRIDGE && self.inside {
            if plain || matches!(k, K_JOIN | K_SUBSPAN | K_CONVERT) {
                if self.on(F_RPC) {
                    o.f.push((F_RPC, 1 + self.r.log(12) as u32));
                }
            }
            if matches!(k, K_PARSE | K_LIT | K_TORN | K_CORRUPT) && o.f.is_empty() {
                if self.on(F_LEX_ERR) {
                    o.f.push((F_LEX_ERR, 1));
                } else if self.on(F_LEX_PANIC) {
                    o.f.push((F_LEX_PANIC, 1));
                }
            }
        }
        o
    }
    fn ops(&mut self, w: W, n: usize) -> Vec<Op> {
        // Swarm: each run leaves some kinds of operation out.
        let keep = self.r.range(6, 10);
        let mut w: Vec<(u8, u32)> = w
            .iter()
            .copied()
            .filter(|x| self.r.below(10) < keep || matches!(x.0, K_PARSE | K_NEW | K_DEEP | K_HOBSERVE))
            .collect();
        // And one or two are much more frequent.
        if self.r.chance(1, 2) {
            let i = self.r.below(w.len());
            if !matches!(w[i].0, K_DEEP | K_CORRUPT | K_RELEASE | K_KILL) {
                w[i].1 *= 4;
            }
        }
        (0..n)
            .map(|_| {
                let k = self.pick(&w);
                self.op(k)
            })
            .collect()
    }
}

/// Preemptions around references to static memory.
fn shared_targets(r: &mut Rng) -> Vec<(u8, u32)> {
    let n = r.range(1, 3);
    (0..n).map(|_| (F_SHARED, ((1 + r.log(12)) * 8 + r.below(8)) as u32)).collect()
}

fn swarm(r: &mut Rng, all: &[(u8, usize)]) -> Vec<(u8, usize)> {
    if r.chance(1, 6) {
        return Vec::new();
    }
    let mut v = Vec::new();
    for &(k, p) in all {
        if r.chance(2, 3) {
            v.push((k, (p * *r.pick(&[1, 1, 2, 3])).min(90)));
        }
    }
    v
}

fn sched_bytes(r: &mut Rng, n: usize, len: usize) -> Vec<u8> {
    if n < 2 {
        return Vec::new();
    }
    let p = *r.pick(&[4usize, 15, 40, 75]);
    (0..len).map(|_| if r.below(100) < p { r.range(1, 7) as u8 } else { 0 }).collect()
}

fn length(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.range(2, 8),
        1..=4 => r.range(8, 30),
        5 | 6 => r.range(20, 60),
        _ => r.range(50, 120),
    }
}

pub fn plan(prop: &str, cfg: &str, seed: u64, run: u64) -> Plan {
    let mut r = Rng::new(mix(seed) ^ mix(hash_str(prop)) ^ run.wrapping_mul(0x2545_f491_4f6c_dd1d));
    let (threads, sched) = threads(prop, run, &mut r);
    Plan { prop: prop.into(), cfg: cfg.into(), seed, run, threads, sched }
}

fn threads(prop: &str, run: u64, r: &mut Rng) -> (Vec<ThreadPlan>, Vec<u8>) {
    const GENERAL: &[(u8, usize)] =
        &[(F_OOM, 6), (F_ITER_PANIC, 8), (F_HINT, 15), (F_REENTER, 10), (F_SINK_ERR, 15), (F_SINK_PANIC, 15)];
    const RPC: &[(u8, usize)] = &[(F_RPC, 5), (F_LEX_ERR, 10), (F_LEX_PANIC, 10), (F_ITER_PANIC, 8), (F_HINT, 12), (F_REENTER, 10), (F_SINK_ERR, 15), (F_SINK_PANIC, 15)];
    const NOFAULT: &[(u8, usize)] = &[];
    const MULTI: &[(u8, usize)] = &[(F_AYIELD, 20), (F_STEP, 3), (F_SHARED, 6), (F_OOM, 3), (F_ITER_PANIC, 5), (F_REENTER, 5)];
    let one = |r: &mut Rng, w: W, faults: &[(u8, usize)], inside: bool, stack: u32, n: usize| {
        let f = swarm(r, faults);
        let mut g = G { r, faults: f, multi: false, inside };
        ThreadPlan { stack_kb: stack, inside, ops: g.ops(w, n) }
    };
    match prop {
        "C01" => {
            let n = length(r);
            (vec![one(r, SPANNY, GENERAL, false, 1024, n)], vec![])
        }
        "C02" => {
            let n = r.range(2, 4);
            let inside = BRIDGE && r.chance(1, 5);
            let race = !inside && r.chance(1, 3);
            let f = if race {
                vec![(F_SHARED, *r.pick(&[10, 20, 40])), (F_STEP, *r.pick(&[0, 4, 12])), (F_AYIELD, *r.pick(&[0, 10]))]
            } else {
                swarm(r, MULTI)
            };
            let len = r.range(3, 22);
            let mut v = Vec::new();
            for _ in 0..n {
                let w = if inside {
                    INSIDE
                } else if race {
                    RACE
                } else {
                    *r.pick(&[SPANNY, SPANNY, INVAL, VALUES, TEAR])
                };
                let k = r.range(2, len + 2);
                let mut g = G { r, faults: f.clone(), multi: true, inside };
                let ops = g.ops(w, k).into_iter().filter(|o| o.k != K_RELEASE).collect();
                v.push(ThreadPlan { stack_kb: 512, inside, ops });
            }
            let len = r.range(20, 300);
            let s = sched_bytes(r, n, len);
            (v, s)
        }
        "C03" => {
            if run == 0 && SPANS {
                let mut o = Op::new(K_MARATHON);
                o.a = r.u32() & 3;
                return (vec![ThreadPlan { stack_kb: 512, inside: false, ops: vec![o] }], vec![]);
            }
            if r.chance(1, 4) {
                // Invalidation on one thread, the others must not notice.
                let n = r.range(2, 3);
                let f = swarm(r, MULTI);
                let mut v = Vec::new();
                for i in 0..n {
                    let w = if i == 0 { INVAL } else { *r.pick(&[SPANNY, INVAL]) };
                    let k = r.range(4, 24);
                    let mut g = G { r, faults: f.clone(), multi: true, inside: false };
                    let ops = g.ops(w, k).into_iter().filter(|o| o.k != K_RELEASE).collect();
                    v.push(ThreadPlan { stack_kb: 512, inside: false, ops });
                }
                let len = r.range(20, 200);
                let s = sched_bytes(r, n, len);
                return (v, s);
            }
            let n = length(r);
            (vec![one(r, INVAL, GENERAL, false, 1024, n)], vec![])
        }
        "C04" => {
            let n = length(r);
            let inside = BRIDGE && r.chance(1, 5);
            (vec![one(r, VALUES, if inside { RPC } else { GENERAL }, inside, 1024, n)], vec![])
        }
        "C05" => {
            let n = length(r);
            (vec![one(r, INSIDE, RPC, BRIDGE, 1024, n)], vec![])
        }
        "C06" => {
            let n = r.range(2, 4);
            let mut v = Vec::new();
            let stepping = r.chance(3, 4);
            let f: Vec<(u8, usize)> = if stepping { vec![(F_STEP, 60)] } else { vec![] };
            for _ in 0..n {
                let inside = BRIDGE && r.chance(1, 2);
                let k = r.range(1, 4);
                let mut ops = Vec::new();
                for _ in 0..k {
                    let kind = *r.pick(&[K_HOBSERVE, K_HOBSERVE, K_HOBSERVE, K_HFORCE, K_HUNFORCE]);
                    let mut o = Op::new(kind);
                    o.a = r.u32() & 0xff;
                    o.s = r.next();
                    if f.iter().any(|_| r.chance(6, 10)) {
                        let m = r.range(1, 3);
                        if r.chance(1, 2) {
                            o.f.extend(shared_targets(r));
                        } else {
                            for _ in 0..m {
                                let v = 1 + r.log(if kind == K_HOBSERVE { 512 } else { 64 }) as u32;
                                o.f.push((F_STEP, v));
                            }
                        }
                    }
                    ops.push(o);
                }
                v.push(ThreadPlan { stack_kb: 512, inside, ops });
            }
            let len = r.range(8, 60);
            let s = sched_bytes(r, n, len);
            (v, s)
        }
        "C07" => {
            let n = length(r);
            let inside = BRIDGE && r.chance(4, 5);
            (vec![one(r, MODES, RPC, inside, 1024, n)], vec![])
        }
        "C08" => {
            let n = length(r);
            (vec![one(r, INVALID, RPC, BRIDGE, 1024, n)], vec![])
        }
        "C09" => {
            let n = length(r);
            let inside = BRIDGE && r.chance(1, 4);
            let f: &[(u8, usize)] =
                &[(F_SINK_ERR, 40), (F_SINK_PANIC, 40), (F_SINK_REENTER, 30), (F_OOM, 5), (F_RPC, 3), (F_LEX_ERR, 10), (F_LEX_PANIC, 10)];
            (vec![one(r, FMT, f, inside, 1024, n)], vec![])
        }
        "C10" => {
            let n = r.range(2, 7);
            let stack = *r.pick(&[128, 160, 192, 256, 384, 512]);
            (vec![one(r, DEEP, NOFAULT, false, stack, n)], vec![])
        }
        "C11" => {
            let n = r.range(1, 3);
            let f = swarm(r, MULTI);
            let mut v = Vec::new();
            for _ in 0..n {
                let k = r.range(3, 30);
                let mut g = G { r, faults: f.clone(), multi: n > 1, inside: false };
                let mut ops = g.ops(TEAR, k);
                if g.r.chance(1, 2) {
                    // Register the stash before anything else of the thread.
                    let mut o = Op::new(K_STASH);
                    o.b = 2;
                    ops.insert(0, o);
                }
                let o = g.op(K_STASH);
                ops.push(o);
                v.push(ThreadPlan { stack_kb: 512, inside: false, ops });
            }
            let len = r.range(20, 200);
            let s = sched_bytes(r, n, len);
            (v, s)
        }
        "C12" => {
            let n = length(r);
            let inside = BRIDGE && r.chance(1, 6);
            (vec![one(r, DAMAGE, if inside { RPC } else { GENERAL }, inside, 1024, n)], vec![])
        }
        _ => {
            let sub = *r.pick(&["C01", "C02", "C03", "C04", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C11", "C12"]);
            threads(sub, run | 1 << 60, r)
        }
    }
}
