//! Which implementation is in use is one shared variable of the process.  The
//! history of operations on it, with the simulated times at which each began
//! and ended, must be explainable by some order of atomic steps.

use crate::plan::*;
use crate::sched;
use crate::shared::{self, *};
use crate::world::{self, World};
use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Force,
    Unforce,
    /// Saw the compiler's implementation?
    Use(bool),
}

#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub thread: usize,
    pub what: What,
    /// Was the thread inside a macro?
    pub inside: bool,
    pub inv: u32,
    pub res: u32,
}

static CLOCK: AtomicU32 = AtomicU32::new(0);
static EVENTS: Mutex<Vec<Event>> = Mutex::new(Vec::new());

fn is_compiler_span(s: Span) -> bool {
    format!("{:?}", s).starts_with("sim#")
}

/// Use the crate in one of several ways and report which implementation
/// answered.
pub fn observe(kind: u32) -> bool {
    let r = catch_unwind(AssertUnwindSafe(|| match kind % 6 {
        0 => is_compiler_span(Span::call_site()),
        1 => is_compiler_span(Literal::u8_suffixed(3).span()),
        2 => is_compiler_span(Span::mixed_site()),
        3 => {
            let t = TokenTree::from(Literal::u8_unsuffixed(3));
            is_compiler_span(t.span())
        }
        4 => {
            let g = proc_macro2::Group::new(proc_macro2::Delimiter::Brace, TokenStream::new());
            is_compiler_span(g.span())
        }
        _ => is_compiler_span(Ident::new("seen", Span::call_site()).span()),
    }));
    match r {
        Ok(b) => b,
        // The compiler's implementation, used outside of a macro.
        Err(_) => true,
    }
}

pub fn op(w: &mut World, op: &Op) {
    let inv = CLOCK.fetch_add(1, SeqCst);
    let what = match op.k {
        K_HFORCE => {
            shared::fired(F_MODE);
            let _ = world::call(w.multi, false, op, proc_macro2::fallback::force);
            What::Force
        }
        K_HUNFORCE => {
            shared::fired(F_MODE);
            let _ = world::call(w.multi, false, op, proc_macro2::fallback::unforce);
            What::Unforce
        }
        _ => {
            let kind = op.a;
            match world::call(w.multi, false, op, || observe(kind)) {
                Ok(b) => What::Use(b),
                Err(_) => violation("panic", "deciding which implementation to use panicked"),
            }
        }
    };
    let res = CLOCK.fetch_add(1, SeqCst);
    let _np = sched::no_preempt();
    let _u = crate::alloc::untracked();
    EVENTS.lock().unwrap().push(Event { thread: w.tid, what, inside: w.inside, inv, res });
}

pub fn reset() {
    let _u = crate::alloc::untracked();
    *EVENTS.lock().unwrap() = Vec::new();
}

/// After the run: is there an order?
pub fn check() {
    let ev = EVENTS.lock().unwrap().clone();
    if ev.is_empty() {
        return;
    }
    eval();
    for e in &ev {
        log((e.inv as u64) << 32 | (e.res as u64) << 8 | (e.thread as u64) << 4 | match e.what {
            What::Force => 1,
            What::Unforce => 2,
            What::Use(b) => 3 + b as u64,
        });
    }
    for a in &ev {
        for b in &ev {
            if a.thread < b.thread && a.inv < b.res && b.inv < a.res {
                probe(P_INIT_RACE);
            }
        }
    }
    if !linearizable(&ev) {
        let mut v = ev.clone();
        v.sort_by_key(|e| e.inv);
        let mut s = String::new();
        for e in &v {
            s.push_str(&format!(
                "\n    [{:>3},{:>3}] thread {} ({} a macro): {}",
                e.inv,
                e.res,
                e.thread,
                if e.inside { "inside" } else { "outside" },
                match e.what {
                    What::Force => "force the fallback".to_owned(),
                    What::Unforce => "stop forcing".to_owned(),
                    What::Use(b) => format!("use -> {}", if b { "compiler" } else { "fallback" }),
                }
            ));
        }
        violation("lin", &format!("no order of these operations explains what they saw:{}", s));
    }
}

/// Steps: force and unforce are one atomic step; a use is two, in order: decide
/// if nothing is decided yet, then read.
pub fn linearizable(ev: &[Event]) -> bool {
    let n = ev.len();
    if n > 60 {
        return true; // not generated
    }
    // done[i]: 0 none, 1 first step of a use, 2 all.
    fn go(ev: &[Event], done: &mut Vec<u8>, state: u8, seen: &mut HashSet<(Vec<u8>, u8)>) -> bool {
        if done.iter().all(|&d| d == 2) {
            return true;
        }
        if !seen.insert((done.clone(), state)) {
            return false;
        }
        // Nothing may take effect before it began: it began after the end of
        // an operation that has not taken effect yet.
        let horizon = (0..ev.len()).filter(|&i| done[i] != 2).map(|i| ev[i].res).min().unwrap();
        for i in 0..ev.len() {
            if done[i] == 2 || ev[i].inv > horizon {
                continue;
            }
            let was = done[i];
            let (next, d) = match (ev[i].what, was) {
                (What::Force, _) => (1, 2),
                (What::Unforce, _) => (if ev[i].inside { 2 } else { 1 }, 2),
                (What::Use(_), 0) => (
                    if state == 0 {
                        if ev[i].inside {
                            2
                        } else {
                            1
                        }
                    } else {
                        state
                    },
                    1,
                ),
                (What::Use(b), _) => {
                    if state != if b { 2 } else { 1 } {
                        continue;
                    }
                    (state, 2)
                }
            };
            done[i] = d;
            if go(ev, done, next, seen) {
                return true;
            }
            done[i] = was;
        }
        false
    }
    go(ev, &mut vec![0; n], 0, &mut HashSet::new())
}
