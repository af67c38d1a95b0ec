//! One simulated run, in a process of its own.

use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
#[cfg(feature = "bridge")]
use crate::server;
use crate::shared::{self, *};
use crate::world::{Mode, SimPanic, Stop, World};
use crate::{alloc, history, sched, text};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Arc;

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static RESUME: [AtomicU32; sched::MAX] = [ZERO; sched::MAX];
static RESTART: [AtomicU32; sched::MAX] = [ZERO; sched::MAX];
static INSIDE: [AtomicU32; sched::MAX] = [ZERO; sched::MAX];
/// Implementation known to be selected at the end of a pass (0 unknown).
static MODE: AtomicU32 = AtomicU32::new(0);

#[cfg(feature = "nightly")]
fn oom_hook(_: std::alloc::Layout) {
    sched::step_end();
    alloc::ARMED.with(|c| c.set(alloc::Armed { active: false, ..c.get() }));
    resume_unwind(Box::new(crate::world::OomPanic));
}

/// Everything that must exist before the first run, and must not be counted.
pub fn warm_up() {
    #[cfg(feature = "bridge")]
    {
        // The client library installs its panic hook on first use.
        let _ = server::expand(vec![], |ts| ts);
        server::reset();
    }
    std::panic::set_hook(Box::new(|info| {
        sched::step_end();
        alloc::ARMED.with(|c| c.set(alloc::Armed { active: false, ..c.get() }));
        if std::env::var_os("SIM_SHOW_PANICS").is_some() {
            eprintln!("{}", info);
        }
    }));
    #[cfg(feature = "nightly")]
    std::alloc::set_alloc_error_hook(oom_hook);
    std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(|| {
            let _ = catch_unwind(|| resume_unwind(Box::new(1u8)));
        })
        .unwrap()
        .join()
        .unwrap();
}

fn same(a: &[MTok], b: &[MTok]) -> bool {
    let sp = |x: &MSpan, y: &MSpan| *x == MSpan::Any || *y == MSpan::Any || x == y;
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (
                MTok::Group { delim: d, toks: t, span: s, open: o, close: c },
                MTok::Group { delim: d2, toks: t2, span: s2, open: o2, close: c2 },
            ) => d == d2 && sp(s, s2) && sp(o, o2) && sp(c, c2) && same(t, t2),
            (MTok::Ident { text, span }, MTok::Ident { text: t2, span: s2 }) => text == t2 && sp(span, s2),
            (MTok::Punct { ch, joint, span }, MTok::Punct { ch: c2, joint: j2, span: s2 }) => ch == c2 && joint == j2 && sp(span, s2),
            (MTok::Lit { repr, span }, MTok::Lit { repr: r2, span: s2 }) => repr == r2 && sp(span, s2),
            _ => false,
        })
}

struct Leaving<'a>(&'a mut World);
impl Drop for Leaving<'_> {
    fn drop(&mut self) {
        self.0.drop_compiler_values();
        self.0.inside = false;
    }
}

#[cfg(feature = "bridge")]
fn expansion(w: &mut World, ops: &[Op], at: usize, seed: u64) -> Stop {
    let mut r = Rng::new(seed ^ mix(at as u64));
    let size = r.below(14);
    let sh = text::Shape::plain(&mut r, size);
    let g = text::valid(&mut r, sh, u32::MAX);
    let input = server::from_model(&g.toks, false);
    let m_in = server::to_model(&input);
    let mut stop = Stop::End;
    let mut expect: Vec<MTok> = Vec::new();
    let result = {
        let (stop, expect, w) = (&mut stop, &mut expect, &mut *w);
        server::expand(input, move |ts| {
            let l = Leaving(w);
            let w = &mut *l.0;
            w.inside = true;
            w.add_input(ts, m_in, mix(seed ^ at as u64 ^ 78));
            *stop = w.exec(ops, at);
            if let Stop::Kill(_) = stop {
                resume_unwind(Box::new(SimPanic(F_KILL)));
            }
            let (out, m) = w.output(mix(seed ^ at as u64 ^ 77));
            *expect = m;
            drop(l);
            // Only the result is still open; the end of the expansion closes
            // whatever else there is, so this is the time to look.
            let live = server::LIVE.with(|l| l.get());
            if live > 1 {
                violation("handle", &format!("{} compiler stream handle(s) still open at the end of the macro", live - 1));
            }
            out
        })
    };
    match result {
        Ok(got) => {
            let got = server::to_model(&got);
            eval();
            if !same(&got, &expect) {
                violation(
                    "token",
                    &format!("the compiler received `{}`, the macro returned `{}`", show(&got), show(&expect)),
                );
            }
        }
        Err(m) => {
            if !matches!(stop, Stop::Kill(_)) {
                violation("panic", &format!("the macro panicked: {}", m));
            }
        }
    }
    let live = server::LIVE.with(|l| l.get());
    if live != 0 {
        violation("handle", &format!("{} compiler stream handle(s) still open after the expansion", live));
    }
    stop
}

fn body(i: usize, plan: &Plan) {
    let t = &plan.threads[i];
    sched::thread_start(i);
    let mut w = World::new(i);
    w.multi = plan.threads.len() > 1;
    w.untouched = t.ops.iter().any(|o| matches!(o.k, K_HFORCE | K_HUNFORCE | K_HOBSERVE));
    w.mode = match MODE.load(SeqCst) {
        1 => Mode::Fallback,
        2 => Mode::Compiler,
        _ => Mode::Uninit,
    };
    let mut at = RESUME[i].load(SeqCst) as usize;
    let mut inside = INSIDE[i].load(SeqCst) == 1;
    loop {
        let stop = if inside {
            #[cfg(feature = "bridge")]
            {
                expansion(&mut w, &t.ops, at, plan.seed ^ mix(plan.run))
            }
            #[cfg(not(feature = "bridge"))]
            {
                w.exec(&t.ops, at)
            }
        } else {
            w.exec(&t.ops, at)
        };
        match stop {
            Stop::End => break,
            Stop::NextExpansion(n) => at = n,
            Stop::Leave(n) => {
                at = n;
                inside = false;
                w.left_macro();
            }
            Stop::Enter(n) => {
                at = n;
                inside = cfg!(feature = "bridge");
            }
            Stop::Kill(n) => {
                RESUME[i].store(n as u32, SeqCst);
                RESTART[i].store(1, SeqCst);
                INSIDE[i].store(inside as u32, SeqCst);
                // The thread dies: everything it owns is dropped on the way.
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let _w = w;
                    resume_unwind(Box::new(SimPanic(F_KILL)));
                }));
                drop(r);
                #[cfg(feature = "bridge")]
                server::reset();
                sched::thread_exit();
                return;
            }
        }
    }
    if inside && plan.threads.len() == 1 {
        w.left_macro();
    }
    w.check_all(plan.seed ^ 0x77, "at the end");
    MODE.store(
        match w.mode {
            Mode::Uninit => 0,
            Mode::Fallback => 1,
            Mode::Compiler => 2,
        },
        SeqCst,
    );
    drop(w);
    #[cfg(feature = "bridge")]
    server::reset();
    sched::thread_exit();
}

fn pass(plan: &Arc<Plan>) {
    let n = plan.threads.len();
    for i in 0..n {
        RESUME[i].store(0, SeqCst);
        RESTART[i].store(0, SeqCst);
        INSIDE[i].store((plan.threads[i].inside && cfg!(feature = "bridge")) as u32, SeqCst);
    }
    let p = plan.clone();
    let end = sched::run(
        n,
        &plan.sched,
        move |i| {
            let p = p.clone();
            std::thread::Builder::new()
                .stack_size((p.threads[i].stack_kb as usize) << 10)
                .spawn(move || {
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(i, &p))) {
                        violation("panic", &format!("unexpected panic: {}", crate::world::message(&*e)));
                    }
                })
                .unwrap_or_else(|_| unsafe { libc::_exit(9) })
        },
        |i| RESTART[i].swap(0, SeqCst) == 1,
    );
    if let sched::End::Deadlock(m) = end {
        violation("deadlock", &m);
    }
}

/// Runs in the forked child; never returns.
pub fn child(plan: Plan, sh: *mut Shared, limit: u32, passes: u32) -> ! {
    shared::attach(sh);
    unsafe {
        libc::alarm(limit);
    }
    sched::install();
    let plan = Arc::new(plan);
    alloc::enable();
    let mut kept = Vec::with_capacity(8);
    for _ in 0..passes.max(1) {
        let base = alloc::live();
        if Rng::new(plan.seed ^ plan.run.rotate_left(32) ^ 0xfe4ce).chance(1, 64) {
            alloc::fence(12_000);
            probe(P_FENCED);
        }
        pass(&plan);
        alloc::fence(0);
        let now = alloc::live();
        kept.push((now.0 - base.0, now.1 - base.1));
    }
    alloc::check_quarantine();
    if let Some((what, _)) = alloc::corruption() {
        violation("heap", what);
    }
    history::check();
    history::reset();
    let s = shared::get();
    s.schedhash.store(sched::HASH.load(SeqCst), SeqCst);
    s.switches.store(sched::SWITCHES.load(SeqCst), SeqCst);
    s.yields.store(sched::YIELDS.load(SeqCst), SeqCst);
    s.steps.store(sched::STEPPED.load(SeqCst), SeqCst);
    s.fired[F_STEP as usize].store(sched::STEPPED.load(SeqCst), SeqCst);
    for k in 0..9 {
        s.by_kind[k].store(sched::BY_KIND[k].load(SeqCst), SeqCst);
    }
    if sched::BY_KIND[8].load(SeqCst) > 0 {
        probe(P_BLOCKED);
    }
    // Memory still held when every thread is gone: kept again on the second
    // and third pass, it is lost; kept once, it is a cache of the process.
    let last = kept[kept.len() - 1];
    if last.0 > 0 {
        if passes <= 1 {
            violation("leak?", &format!("{} block(s), {} byte(s) still allocated after every thread ended", last.0, last.1));
        } else if kept.iter().skip(1).all(|k| k.0 > 0) {
            violation("leak", &format!("{} block(s), {} byte(s) still allocated after every thread ended", last.0, last.1));
        }
    }
    s.verdict.store(1, SeqCst);
    unsafe { libc::_exit(0) }
}
