//! Executes the operations of one simulated thread against the real crate and
//! against the reference model, and compares the two.

use crate::alloc::{self, Armed, ARMED};
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
#[cfg(feature = "bridge")]
use crate::server;
use crate::shared::{self, *};
use crate::text::{self, Shape};
use crate::{history, sched};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::{Cell, RefCell};
use std::ops::Bound;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const SPANS: bool = cfg!(feature = "spans");
pub const PMSPAN: bool = cfg!(feature = "nightly") && option_env!("SIM_NO_PMSPAN").is_none();

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Uninit,
    Fallback,
    Compiler,
}

/// Payload of every panic the simulator injects.
pub struct SimPanic(pub u8);
pub struct OomPanic;

pub enum Caught {
    Sim(#[allow(dead_code)] u8),
    Oom,
    Rpc,
    Other(String),
}

pub struct St {
    pub real: TokenStream,
    pub m: Rc<Vec<MTok>>,
    /// Backed by the compiler.
    pub comp: bool,
    /// Parsed from text and untouched since: its text parses back to itself.
    pub pristine: bool,
    /// Another handle onto the same storage may exist.
    pub shared: bool,
}
pub struct It {
    pub real: proc_macro2::token_stream::IntoIter,
    pub m: Rc<Vec<MTok>>,
    pub at: usize,
    pub comp: bool,
}

pub struct World {
    pub tid: usize,
    pub inside: bool,
    pub epoch: u32,
    pub files: Vec<MFile>,
    pub streams: Vec<St>,
    pub trees: Vec<(TokenTree, MTok)>,
    pub iters: Vec<It>,
    pub spans: Vec<(Span, MSpan)>,
    pub errors: Vec<Rc<proc_macro2::LexError>>,
    pub faulted: Cell<bool>,
    pub mode: Mode,
    /// Only the plan's own operations may use the crate.
    pub untouched: bool,
    pub last_k: u8,
    pub multi: bool,
    pub no_alloc_faults: bool,
}

pub enum Stop {
    End,
    Kill(usize),
    NextExpansion(usize),
    Leave(usize),
    Enter(usize),
}

thread_local! {
    static STASH: RefCell<Stash> = const { RefCell::new(Stash(Vec::new())) };
    static EPOCH: Cell<u32> = const { Cell::new(0) };
    static PREDICT: Cell<Mode> = const { Cell::new(Mode::Uninit) };
}

struct Stash(Vec<(u8, Stashed)>);
enum Stashed {
    Stream(TokenStream, Rc<Vec<MTok>>),
    Tree(TokenTree, MTok),
    Iter(proc_macro2::token_stream::IntoIter, Vec<MTok>),
    /// A span, the text it is in, where, and the invalidations so far.
    Span(Span, Option<(Rc<str>, u32, u32)>, u32),
    /// A text to parse, what it means; valid?
    Parse(String, Option<Vec<MTok>>),
    Invalidate,
}

impl Drop for Stash {
    fn drop(&mut self) {
        // The thread is being torn down; its other thread-locals may be gone.
        for (what, s) in self.0.drain(..) {
            shared::fired(F_TEARDOWN);
            if !std::thread::panicking() {
                let r = catch_unwind(AssertUnwindSafe(|| teardown_use(what, s)));
                if r.is_err() {
                    violation("panic", "using a token value while its thread is being torn down panicked");
                }
            }
        }
    }
}

fn teardown_use(what: u8, s: Stashed) {
    let mut ck = Checker { files: &[], epoch: u32::MAX, rng: Rng::new(what as u64), spans: false, where_: "thread teardown" };
    probe(P_TLS_AFTER_MAP);
    match s {
        Stashed::Stream(mut ts, m) => match what % 5 {
            0 => drop(ts),
            1 => {
                let c = ts.clone();
                drop(ts);
                ck.stream(&c, &m);
            }
            2 => {
                let id = Ident::new("torn", Span::call_site());
                let keep = ts.clone();
                ts.extend([TokenTree::Ident(id)]);
                let mut v = m.to_vec();
                ck.stream(&keep, &v);
                v.push(MTok::Ident { text: "torn".into(), span: MSpan::Any });
                ck.stream(&ts, &v);
            }
            3 => {
                let s1 = ts.to_string();
                let s2 = ts.clone().to_string();
                if s1 != s2 {
                    violation("token", "text of a stream changed during thread teardown");
                }
                ck.stream(&ts, &m);
            }
            _ => {
                let all: Vec<TokenTree> = ts.into_iter().collect();
                let back: TokenStream = all.into_iter().collect();
                ck.stream(&back, &m);
            }
        },
        Stashed::Tree(t, m) => {
            ck.tree(&t, &m);
            if what % 2 == 0 {
                let ts = TokenStream::from(t);
                let mut v = Vec::new();
                push_tok(&mut v, m, false);
                ck.stream(&ts, &v);
            }
        }
        Stashed::Iter(it, m) => {
            if what % 2 == 0 {
                let ts: TokenStream = it.collect();
                ck.stream(&ts, &m);
            }
        }
        // With span locations, the thread's table may be gone: a panic is fine
        // then, a wrong answer is not.
        Stashed::Span(s, at, epoch) => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let t = s.source_text();
                #[cfg(feature = "spans")]
                {
                    let (a, b) = (s.start(), s.end());
                    let _ = (s.join(s), s.file(), s.local_file());
                    (t, s.byte_range(), (a.line, a.column), (b.line, b.column))
                }
                #[cfg(not(feature = "spans"))]
                (t, 0..0, (0, 0), (0, 0))
            }));
            let _ = (s.resolved_at(Span::call_site()), format!("{:?}", s));
            match r {
                Ok(got) => {
                    let (text, lo, hi) = match at {
                        Some(x) if epoch == EPOCH.with(|e| e.get()) && cfg!(feature = "spans") => x,
                        _ => return,
                    };
                    let l = locate(&text, lo, hi);
                    let want = (Some(text[l.bytes.0..l.bytes.1].to_owned()), l.bytes.0..l.bytes.1, l.start, l.end);
                    eval();
                    if got != want {
                        violation("span", &format!("during thread teardown a span is {:?}, not {:?}", got, want));
                    }
                }
                Err(_) if cfg!(feature = "spans") => probe(P_GONE),
                Err(_) => violation("panic", "using a span while its thread is being torn down panicked"),
            }
        }
        Stashed::Parse(text, m) => match catch_unwind(AssertUnwindSafe(|| text.parse::<TokenStream>())) {
            Ok(Ok(ts)) => {
                if let Some(m) = m {
                    ck.stream(&ts, &m);
                } else {
                    violation("accept", "invalid source was accepted during thread teardown");
                }
            }
            Ok(Err(e)) => {
                if m.is_some() {
                    violation("reject", "valid source was rejected during thread teardown");
                }
                let _ = (e.to_string(), format!("{:?}", e), e.span());
            }
            Err(_) if cfg!(feature = "spans") => probe(P_GONE),
            Err(_) => violation("panic", "parsing while the thread is being torn down panicked"),
        },
        Stashed::Invalidate => {
            #[cfg(feature = "spans")]
            {
                let r = catch_unwind(proc_macro2::extra::invalidate_current_thread_spans);
                if r.is_ok() {
                    EPOCH.with(|e| e.set(e.get() + 1));
                }
            }
        }
    }
}

// --- faults around one call ---------------------------------------------------

struct Pause(Armed);
/// Harness code called back by the crate is not subject to injected faults.
fn pause() -> Pause {
    let a = ARMED.with(|a| a.get());
    ARMED.with(|c| c.set(Armed { active: false, ..a }));
    Pause(a)
}
impl Drop for Pause {
    fn drop(&mut self) {
        let now = ARMED.with(|a| a.get());
        ARMED.with(|c| c.set(Armed { active: self.0.active, ..now }));
    }
}

pub fn inject_panic(kind: u8) -> ! {
    shared::fired(kind);
    sched::step_end();
    ARMED.with(|c| c.set(Armed { active: false, ..c.get() }));
    resume_unwind(Box::new(SimPanic(kind)))
}

pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

/// One call into the crate, with the faults of the operation armed.
pub fn call<R>(w_multi: bool, allow_oom: bool, op: &Op, f: impl FnOnce() -> R) -> Result<R, Caught> {
    let mut y = [0u32; 4];
    for (i, v) in op.faults(F_AYIELD).take(4).enumerate() {
        y[i] = v;
    }
    let oom = if allow_oom && cfg!(feature = "nightly") { op.fault(F_OOM).unwrap_or(0) } else { 0 };
    #[cfg(feature = "bridge")]
    server::arm(op);
    ARMED.with(|c| {
        c.set(Armed { oom_at: oom, yield_at: if w_multi { y } else { [0; 4] }, count: 0, active: true, oom_fired: false })
    });
    let r = catch_unwind(AssertUnwindSafe(|| {
        if w_multi {
            sched::step_begin();
        }
        let r = f();
        sched::step_end();
        r
    }));
    sched::step_end();
    let a = ARMED.with(|c| c.replace(Armed { oom_at: 0, yield_at: [0; 4], count: 0, active: false, oom_fired: false }));
    if std::env::var_os("SIM_TRACE").is_some() {
        eprintln!("{} allocs {}", op_name(op.k), a.count);
    }
    shared::get().allocs.fetch_add(a.count as u64, std::sync::atomic::Ordering::Relaxed);
    if a.oom_fired {
        shared::fired(F_OOM);
    }
    let hit = y.iter().filter(|&&v| v != 0 && v <= a.count).count();
    for _ in 0..hit {
        shared::fired(F_AYIELD);
    }
    #[cfg(feature = "bridge")]
    server::disarm();
    if let Some((what, _)) = alloc::corruption() {
        violation("heap", what);
    }
    match r {
        Ok(v) => {
            log(1);
            Ok(v)
        }
        Err(p) => {
            let c = if let Some(s) = p.downcast_ref::<SimPanic>() {
                Caught::Sim(s.0)
            } else if p.is::<OomPanic>() || a.oom_fired {
                Caught::Oom
            } else {
                let m = message(&*p);
                #[cfg(feature = "bridge")]
                let m = if server::rpc_fired() && m == server::RPC_FAULT {
                    log(5);
                    return Err(Caught::Rpc);
                } else {
                    m
                };
                Caught::Other(m)
            };
            log(match &c {
                Caught::Sim(k) => 0x100 + *k as u64,
                Caught::Oom => 3,
                Caught::Rpc => 5,
                Caught::Other(_) => 4,
            });
            Err(c)
        }
    }
}

/// The preemption points of an operation, for the calls and queries it makes.
fn targets(op: &Op) -> sched::Targets {
    let mut t = sched::NO_TARGETS;
    for (i, v) in op.faults(F_STEP).take(4).enumerate() {
        t.instr[i] = v as u64;
    }
    for (i, v) in op.faults(F_SHARED).take(4).enumerate() {
        t.shared[i] = v as u64;
    }
    t
}

/// A question to the crate that cannot fail, preemptible like any call.
#[inline]
fn q<R>(f: impl FnOnce() -> R) -> R {
    if !sched::step_pending() {
        return f();
    }
    ARMED.with(|c| c.set(Armed { oom_at: 0, yield_at: [0; 4], count: 0, active: true, oom_fired: false }));
    sched::step_begin();
    let r = f();
    sched::step_end();
    ARMED.with(|c| c.set(Armed { oom_at: 0, yield_at: [0; 4], count: 0, active: false, oom_fired: false }));
    r
}

/// An iterator handed to the crate: may lie, panic, or call back in.
pub struct SimIter<T> {
    items: std::vec::IntoIter<T>,
    n: u32,
    panic_at: u32,
    hint: u32,
    reenter_at: u32,
    action: Option<Box<dyn FnMut()>>,
}
impl<T> SimIter<T> {
    fn new(items: Vec<T>, op: &Op, action: Option<Box<dyn FnMut()>>) -> SimIter<T> {
        if op.fault(F_HINT).is_some() {
            shared::fired(F_HINT);
        }
        SimIter {
            items: items.into_iter(),
            n: 0,
            panic_at: op.fault(F_ITER_PANIC).unwrap_or(0),
            hint: op.fault(F_HINT).unwrap_or(0),
            reenter_at: op.fault(F_REENTER).map_or(0, |v| 1 + (v >> 8)),
            action,
        }
    }
}
impl<T> Iterator for SimIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _p = pause();
        sched::yield_point(sched::Y_ITER, false);
        self.n += 1;
        if self.panic_at == self.n {
            inject_panic(F_ITER_PANIC);
        }
        if self.reenter_at == self.n {
            if let Some(a) = &mut self.action {
                shared::fired(F_REENTER);
                a();
            }
        }
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (n + 37, None),
            4 => (n / 2, Some(n / 2)),
            _ => (1, Some(1)),
        }
    }
}

struct Sink {
    got: String,
    calls: u32,
    err_at: u32,
    panic_at: u32,
    reenter_at: u32,
    failed: bool,
    after_fail: u32,
    action: Option<Box<dyn FnMut()>>,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _p = pause();
        sched::yield_point(sched::Y_SINK, false);
        self.calls += 1;
        if self.failed {
            self.after_fail += 1;
            return Err(std::fmt::Error);
        }
        if self.reenter_at == self.calls {
            if let Some(a) = &mut self.action {
                shared::fired(F_SINK_REENTER);
                a();
            }
        }
        if self.err_at == self.calls {
            shared::fired(F_SINK_ERR);
            self.failed = true;
            return Err(std::fmt::Error);
        }
        if self.panic_at == self.calls {
            inject_panic(F_SINK_PANIC);
        }
        self.got.push_str(s);
        Ok(())
    }
}

// --- comparison ------------------------------------------------------------------

pub fn delim_of(d: Delimiter) -> MDelim {
    match d {
        Delimiter::Parenthesis => 0,
        Delimiter::Brace => 1,
        Delimiter::Bracket => 2,
        Delimiter::None => 3,
    }
}
pub fn delim_to(d: MDelim) -> Delimiter {
    match d {
        0 => Delimiter::Parenthesis,
        1 => Delimiter::Brace,
        2 => Delimiter::Bracket,
        _ => Delimiter::None,
    }
}

pub struct Checker<'a> {
    pub files: &'a [MFile],
    pub epoch: u32,
    pub rng: Rng,
    pub spans: bool,
    pub where_: &'static str,
}

impl Checker<'_> {
    fn fail(&self, class: &str, msg: String) -> ! {
        violation(class, &format!("{} ({})", msg, self.where_))
    }

    pub fn stream(&mut self, real: &TokenStream, m: &[MTok]) {
        self.stream_v(real, m)
    }
    pub fn stream_v(&mut self, real: &TokenStream, m: &[MTok]) {
        eval();
        if q(|| real.is_empty()) != m.is_empty() {
            self.fail("token", format!("is_empty() is {} for a stream of {} tokens", real.is_empty(), m.len()));
        }
        self.iter(q(|| real.clone().into_iter()), m);
    }
    pub fn iter(&mut self, real: proc_macro2::token_stream::IntoIter, m: &[MTok]) {
        // Iterative: nesting may be deep and the stack small.
        struct Frame {
            real: proc_macro2::token_stream::IntoIter,
            m: Rc<Vec<MTok>>,
            i: usize,
        }
        let mut stack = vec![Frame { real, m: Rc::new(m.to_vec()), i: 0 }];
        while let Some(f) = stack.last_mut() {
            let left = f.m.len() - f.i;
            let (lo, hi) = q(|| f.real.size_hint());
            if lo > left || hi.is_some_and(|h| h < left) {
                self.fail("token", format!("size_hint {:?} with {} tokens left", (lo, hi), left));
            }
            let next = q(|| f.real.next());
            match (next, f.m.get(f.i)) {
                (None, None) => {
                    stack.pop();
                }
                (Some(t), None) => {
                    let all = f.m.clone();
                    self.fail("token", format!("extra token `{}` after expected `{}`", short(&t), show(&all)))
                }
                (None, Some(_)) => {
                    let (all, i) = (f.m.clone(), f.i);
                    self.fail("token", format!("stream ends at token {} of expected `{}`", i, show(&all)))
                }
                (Some(t), Some(mt)) => {
                    let mt = mt.clone();
                    f.i += 1;
                    self.leaf(&t, &mt);
                    if let (TokenTree::Group(g), MTok::Group { toks, .. }) = (&t, &mt) {
                        let s = q(|| g.stream());
                        if s.is_empty() != toks.is_empty() {
                            self.fail("token", "is_empty() of a group's stream is wrong".into());
                        }
                        stack.push(Frame { real: s.into_iter(), m: toks.clone(), i: 0 });
                    }
                }
            }
        }
    }
    pub fn tree(&mut self, t: &TokenTree, m: &MTok) {
        eval();
        self.leaf(t, m);
        if let (TokenTree::Group(g), MTok::Group { toks, .. }) = (t, m) {
            let s = g.stream();
            self.stream_v(&s, toks);
        }
    }
    /// The value of a literal, where it can be read off its text without unescaping anything.
    #[cfg(procmacro2_semver_exempt)]
    fn value(&mut self, l: &Literal, repr: &str) -> bool {
        if !self.rng.chance(1, 4) {
            return true;
        }
        let (s, b, c) = q(|| (l.str_value(), l.byte_str_value(), l.cstr_value()));
        let plain = |pre: &str| {
            let rest = repr.strip_prefix(pre)?;
            let raw = rest.strip_prefix('r');
            let rest = raw.unwrap_or(rest);
            let n = if raw.is_some() { rest.len() - rest.trim_start_matches('#').len() } else { 0 };
            let body = rest[n..].strip_prefix('"')?;
            let end = format!("\"{}", "#".repeat(n));
            let body = body.strip_suffix(&*end)?;
            (!body.contains(['\\', '\r', '\0', '\t']) && (n > 0 || !body.contains('"')) && (pre != "b" || body.is_ascii())).then_some(body)
        };
        let kinds = s.is_ok() as u8 + b.is_ok() as u8 + c.is_ok() as u8;
        let agree = |v: Result<Vec<u8>, _>, pre: &str, nul: bool| match plain(pre) {
            Some(body) => {
                let mut w = body.as_bytes().to_vec();
                if nul {
                    w.push(0);
                }
                v.is_ok_and(|v: Vec<u8>| v == w)
            }
            None => true,
        };
        let ok = kinds <= 1
            && agree(s.map(String::into_bytes), "", false)
            && agree(b, "b", false)
            && agree(c, "c", true);
        if !ok {
            self.fail("token", format!("the value of the literal `{}` is wrong", trunc(repr)));
        }
        true
    }
    #[cfg(not(procmacro2_semver_exempt))]
    fn value(&mut self, _: &Literal, _: &str) -> bool {
        true
    }
    /// Everything about a token except what is inside a group.
    fn leaf(&mut self, t: &TokenTree, m: &MTok) {
        let same = match (t, m) {
            (TokenTree::Group(g), MTok::Group { delim, .. }) => delim_of(g.delimiter()) == *delim,
            (TokenTree::Ident(i), MTok::Ident { text, .. }) => {
                let s = q(|| i.to_string());
                s == **text && *i == **text
            }
            (TokenTree::Punct(p), MTok::Punct { ch, joint, .. }) => {
                p.as_char() == *ch && (p.spacing() == Spacing::Joint) == *joint
            }
            (TokenTree::Literal(l), MTok::Lit { repr, .. }) => q(|| l.to_string()) == **repr && self.value(l, repr),
            _ => false,
        };
        if !same {
            self.fail("token", format!("token is `{}`, expected `{}`", short(t), show(std::slice::from_ref(m))));
        }
        if !self.spans {
            return;
        }
        match (t, m) {
            (TokenTree::Group(g), MTok::Group { span, open, close, .. }) => {
                self.span(g.span(), span);
                let d = g.delim_span();
                if self.rng.chance(1, 2) {
                    self.span(g.span_open(), open);
                    self.span(d.close(), close);
                } else {
                    self.span(d.open(), open);
                    self.span(g.span_close(), close);
                }
                if self.rng.chance(1, 4) {
                    self.span(d.join(), span);
                }
                if self.rng.chance(1, 32) && format!("{:?}", d) != format!("{:?}", d.join()) {
                    self.fail("span", format!("the spans of a group print as {:?}", d));
                }
            }
            _ => self.span(t.span(), m.span()),
        }
    }

    pub fn span(&mut self, real: Span, m: &MSpan) {
        match *m {
            MSpan::Any => {}
            MSpan::Call => {
                #[cfg(feature = "spans")]
                {
                    eval();
                    let b = q(|| real.byte_range());
                    if b != (0..0) {
                        self.fail("span", format!("call_site span has byte range {:?}", b));
                    }
                    let f = q(|| real.file());
                    if let Some(x) = self.files.iter().find(|x| x.epoch == self.epoch && x.name.borrow().as_deref() == Some(&*f)) {
                        self.fail("span", format!("call_site span claims to be in {:?}, the file of source {}", f, x.id));
                    }
                }
                if real.source_text().is_some() {
                    self.fail("span", format!("call_site span has source text {:?}", real.source_text()));
                }
            }
            MSpan::Comp(_id) => {
                #[cfg(feature = "bridge")]
                self.comp_span(real, _id)
            }
            MSpan::File { file, lo, hi } => {
                #[cfg(feature = "spans")]
                self.file_span(real, file, lo, hi);
                #[cfg(not(feature = "spans"))]
                {
                    let _ = (file, lo, hi);
                    if real.source_text().is_some() {
                        self.fail("span", "source text without span-locations".into());
                    }
                }
            }
        }
    }

    #[cfg(feature = "bridge")]
    fn comp_span(&mut self, real: Span, id: u32) {
        eval();
        let d = q(|| format!("{:?}", real));
        if d != server::m_debug(id) {
            self.fail("span", format!("span is {}, the compiler's is {}", d, server::m_debug(id)));
        }
        if !self.rng.chance(1, 6) {
            return;
        }
        if real.source_text() != server::m_source_text(id) {
            self.fail("span", format!("source_text {:?}, compiler says {:?}", real.source_text(), server::m_source_text(id)));
        }
        #[cfg(feature = "spans")]
        {
            let e = server::m_end(id);
            let want = (server::m_line(id), server::m_column(id).saturating_sub(1), server::m_line(e), server::m_column(e).saturating_sub(1));
            let (s, en) = (real.start(), real.end());
            let got = (s.line, s.column, en.line, en.column);
            if got != want {
                self.fail("span", format!("line/column {:?}, compiler says {:?}", got, want));
            }
            if real.file() != server::m_file(id) {
                self.fail("span", format!("file {:?}, compiler says {:?}", real.file(), server::m_file(id)));
            }
            if real.local_file().map(|p| p.to_string_lossy().into_owned()) != server::m_local_file(id) {
                self.fail("span", format!("local_file {:?}, compiler says {:?}", real.local_file(), server::m_local_file(id)));
            }
            if PMSPAN {
                if real.byte_range() != server::m_bytes(id) {
                    self.fail("span", format!("byte_range {:?}, compiler says {:?}", real.byte_range(), server::m_bytes(id)));
                }
            } else if real.byte_range() != (0..0) {
                self.fail("span", "byte_range of a compiler span invented on a stable compiler".into());
            }
        }
    }

    #[cfg(feature = "spans")]
    fn file_span(&mut self, real: Span, file: u32, lo: u32, hi: u32) {
        let Some(i) = self.files.iter().rposition(|f| f.id == file) else { return };
        let f = &self.files[i];
        if f.epoch != self.epoch {
            return; // stale: anything goes
        }
        eval();
        if !f.text.is_ascii() {
            probe(P_UNICODE_SPAN);
        }
        if i > 0 {
            probe(P_FILE2);
        }
        if self.epoch > 0 {
            probe(P_AFTER_INVALIDATE);
        }
        let want = f.locate(lo, hi);
        let what = || format!("source {} chars {}..{} (`{}`)", file, lo, hi, trunc(&f.text[want.bytes.0..want.bytes.1]));
        let order = self.rng.next();
        for k in 0..5u64 {
            match (order.wrapping_add(k * if order & 64 == 0 { 1 } else { 4 })) % 5 {
                0 => {
                    let b = q(|| real.byte_range());
                    if (b.start, b.end) != want.bytes {
                        self.fail("span", format!("byte_range is {:?}, expected {:?} for {}", b, want.bytes, what()));
                    }
                }
                1 => {
                    let s = q(|| real.start());
                    if (s.line, s.column) != want.start {
                        self.fail("span", format!("start is {}:{}, expected {:?} for {}", s.line, s.column, want.start, what()));
                    }
                }
                2 => {
                    let s = q(|| real.end());
                    if (s.line, s.column) != want.end {
                        self.fail("span", format!("end is {}:{}, expected {:?} for {}", s.line, s.column, want.end, what()));
                    }
                }
                3 => {
                    let t = q(|| real.source_text());
                    if t.as_deref() != Some(&f.text[want.bytes.0..want.bytes.1]) {
                        self.fail("span", format!("source_text is {:?} for {}", t, what()));
                    }
                }
                _ => {
                    let n = q(|| real.file());
                    let known = f.name.borrow().clone();
                    match known {
                        Some(k) => {
                            if k != n {
                                self.fail("span", format!("file() is {:?}, earlier {:?}, for {}", n, k, what()));
                            }
                        }
                        None => {
                            for o in self.files {
                                if o.epoch == self.epoch && o.id != f.id && o.name.borrow().as_deref() == Some(&*n) {
                                    self.fail("span", format!("file() is {:?} for both source {} and {}", n, o.id, what()));
                                }
                            }
                            *f.name.borrow_mut() = Some(n);
                        }
                    }
                    if real.local_file().is_some() {
                        self.fail("span", "local_file of a parsed string".into());
                    }
                }
            }
        }
    }
}

/// A literal from one of the constructors, and its text.
/// Small numbers, and the largest and smallest of each size.
fn number(v: u8) -> i128 {
    match v {
        0..=15 => {
            let bits = [7u32, 8, 15, 16, 31, 32, 63, 64][v as usize / 2];
            if v % 2 == 0 { (1i128 << bits) - 1 } else { -(1i128 << bits) }
        }
        16 | 17 => i128::MAX,
        18 | 19 => i128::MIN,
        20 => u64::MAX as i128 * 1_000_000_007,
        _ => v as i8 as i128,
    }
}
fn real(v: u8) -> f64 {
    match v {
        0..=7 => [1e300, -1e300, -123456789e30, 1e-300, -1e-7, 1e15, -1e16, 0.1][v as usize],
        _ => v as i8 as f64,
    }
}
fn dotted(s: String) -> String {
    if s.contains('.') { s } else { s + ".0" }
}
/// The case of a hexadecimal digit is the printer's business.
fn either_case(l: Literal, want: String) -> (Literal, String) {
    let s = l.to_string();
    if s.eq_ignore_ascii_case(&want) { (l, s) } else { (l, want) }
}

/// The bytes a non-raw quoted literal denotes, by the Rust reference.
fn denotes(text: &str, prefix: &str, quote: char) -> Option<Vec<u8>> {
    let body = text.strip_prefix(prefix)?.strip_prefix(quote)?.strip_suffix(quote)?;
    let mut out = Vec::new();
    let mut it = body.chars();
    while let Some(c) = it.next() {
        if c == quote || (matches!(c, '\n' | '\r' | '\t') && quote == '\'') || c == '\r' || (prefix == "b" && !c.is_ascii()) {
            return None;
        }
        if c != '\\' {
            out.extend(c.encode_utf8(&mut [0; 4]).bytes());
            continue;
        }
        match it.next()? {
            'n' => out.push(b'\n'),
            'r' => out.push(b'\r'),
            't' => out.push(b'\t'),
            '0' if prefix != "c" => out.push(0),
            c @ ('\\' | '\'' | '"') => out.push(c as u8),
            'x' => {
                let n = it.next()?.to_digit(16)? * 16 + it.next()?.to_digit(16)?;
                if prefix.is_empty() && n > 0x7f {
                    return None;
                }
                out.push(n as u8);
            }
            'u' if prefix != "b" => {
                let rest = it.as_str().strip_prefix('{')?;
                let (hex, after) = rest.split_once('}')?;
                out.extend(char::from_u32(u32::from_str_radix(hex, 16).ok()?)?.encode_utf8(&mut [0; 4]).bytes());
                it = after.chars();
            }
            _ => return None,
        }
    }
    Some(out)
}
/// How a value is escaped is the printer's business; what it denotes is not.
fn escaped(l: Literal, prefix: &str, quote: char, want: &[u8]) -> (Literal, String) {
    let s = l.to_string();
    if denotes(&s, prefix, quote).as_deref() == Some(want) { (l, s) } else { (l, format!("a literal denoting {:?}", String::from_utf8_lossy(want))) }
}
const ODD: &[u8] = b"\t\n\r\\\"\'\0a7\x01\x7f ";
fn odd(v: u8, hi: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut k = v as usize;
    for _ in 0..v % 5 + 1 {
        out.push(ODD[k % ODD.len()]);
        k = k * 7 + 3;
        if k & 4 != 0 {
            out.extend_from_slice(hi);
        }
        if k & 16 != 0 {
            out.extend_from_slice(b"\x007");
        }
    }
    out
}

fn literal(x: u64) -> fn(u8) -> (Literal, String) {
    macro_rules! n {
        ($($t:ident $s:ident $u:ident),*) => {{
            let mut all: Vec<fn(u8) -> (Literal, String)> = Vec::new();
            $(
                all.push(|v| { let v = number(v) as $t; (Literal::$s(v), format!("{}{}", v, stringify!($t))) });
                all.push(|v| { let v = number(v) as $t; (Literal::$u(v), format!("{}", v)) });
            )*
            all
        }};
    }
    let mut all = n!(
        u8 u8_suffixed u8_unsuffixed, u16 u16_suffixed u16_unsuffixed, u32 u32_suffixed u32_unsuffixed, u64 u64_suffixed u64_unsuffixed,
        u128 u128_suffixed u128_unsuffixed, usize usize_suffixed usize_unsuffixed, i8 i8_suffixed i8_unsuffixed,
        i16 i16_suffixed i16_unsuffixed, i32 i32_suffixed i32_unsuffixed, i64 i64_suffixed i64_unsuffixed,
        i128 i128_suffixed i128_unsuffixed, isize isize_suffixed isize_unsuffixed
    );
    all.push(|v| (Literal::f64_unsuffixed(real(v)), dotted(format!("{}", real(v)))));
    all.push(|v| (Literal::f64_unsuffixed(v as i8 as f64 - 0.5), format!("{}", v as i8 as f64 - 0.5)));
    all.push(|v| (Literal::f64_suffixed(real(v)), format!("{}f64", real(v))));
    all.push(|v| (Literal::f32_unsuffixed(real(v % 128 + 8) as f32 + 0.1), dotted(format!("{}", real(v % 128 + 8) as f32 + 0.1))));
    all.push(|v| (Literal::f32_suffixed(v as i8 as f32 + 0.25), format!("{}f32", v as i8 as f32 + 0.25)));
    all.push(|v| {
        let c = ["a", "é", "行 z", "😀", "longer text, "][v as usize % 5].repeat([1, 2, 30][v as usize % 3]);
        (Literal::string(&c), format!("\"{}\"", c))
    });
    all.push(|v| {
        let c = ['a', 'Z', 'é', '行', '😀', '0'][v as usize % 6];
        (Literal::character(c), format!("'{}'", c))
    });
    all.push(|v| {
        let c = b'a' + v % 26;
        (Literal::byte_character(c), format!("b'{}'", c as char))
    });
    all.push(|v| either_case(Literal::byte_character(v | 0x80), format!("b'\\x{:02x}'", v | 0x80)));
    all.push(|v| {
        let c = b'a' + v % 26;
        (Literal::byte_string(&[c, b' ', c]), format!("b\"{0} {0}\"", c as char))
    });
    all.push(|v| either_case(Literal::byte_string(&[b'x', v | 0x80, b'y']), format!("b\"x\\x{:02x}y\"", v | 0x80)));
    all.push(|v| {
        let c = b'a' + v % 26;
        (Literal::c_string(&std::ffi::CString::new([c, b'!']).unwrap()), format!("c\"{}!\"", c as char))
    });
    all.push(|v| {
        let c = odd(v, "é行".as_bytes());
        escaped(Literal::string(std::str::from_utf8(&c).unwrap()), "", '"', &c)
    });
    all.push(|v| {
        let c = ODD[v as usize % ODD.len()];
        escaped(Literal::character(c as char), "", '\'', &[c])
    });
    all.push(|v| {
        let c = ODD[v as usize % ODD.len()];
        escaped(Literal::byte_character(c), "b", '\'', &[c])
    });
    all.push(|v| {
        let c = odd(v, &[v, 0xff]);
        escaped(Literal::byte_string(&c), "b", '"', &c)
    });
    all.push(|v| {
        let mut c = odd(v, if v & 1 == 0 { b"\xe8\xa1" } else { "é行".as_bytes() });
        c.retain(|&b| b != 0);
        escaped(Literal::c_string(&std::ffi::CString::new(&c[..]).unwrap()), "c", '"', &c)
    });
    all.push(|v| {
        let s = crate::text::valid_literal(v);
        (unsafe { Literal::from_str_unchecked(s) }, s.to_string())
    });
    all[x as u8 as usize % all.len()]
}

pub fn trunc(s: &str) -> String {
    let t: String = s.chars().take(40).collect();
    if t.len() < s.len() {
        t + "…"
    } else {
        t
    }
}
fn short(t: &TokenTree) -> String {
    match t {
        TokenTree::Group(g) => format!("group {:?}", g.delimiter()),
        TokenTree::Ident(i) => i.to_string(),
        TokenTree::Punct(p) => format!("{}{}", p.as_char(), if p.spacing() == Spacing::Joint { "~" } else { "" }),
        TokenTree::Literal(l) => trunc(&l.to_string()),
    }
}

fn recolor(toks: &[MTok], s: &MSpan) -> Vec<MTok> {
    toks.iter()
        .map(|t| match t {
            MTok::Group { delim, toks, .. } => {
                MTok::Group { delim: *delim, toks: Rc::new(recolor(toks, s)), span: s.clone(), open: s.clone(), close: s.clone() }
            }
            o => {
                let mut o = o.clone();
                o.set_span(s.clone());
                o
            }
        })
        .collect()
}

fn has_comp(toks: &[MTok]) -> bool {
    toks.iter().any(|t| {
        t.is_compiler()
            || match t {
                MTok::Group { toks, .. } => has_comp(toks),
                _ => false,
            }
    })
}
fn has_none_group(toks: &[MTok]) -> bool {
    toks.iter().any(|t| match t {
        MTok::Group { delim, toks, .. } => *delim == 3 || has_none_group(toks),
        _ => false,
    })
}

// --- the world ---------------------------------------------------------------------

impl World {
    pub fn new(tid: usize) -> World {
        World {
            tid,
            inside: false,
            epoch: 0,
            files: Vec::new(),
            streams: Vec::new(),
            trees: Vec::new(),
            iters: Vec::new(),
            spans: Vec::new(),
            errors: Vec::new(),
            faulted: Cell::new(false),
            mode: Mode::Uninit,
            untouched: false,
            last_k: 0,
            multi: false,
            no_alloc_faults: false,
        }
    }

    fn mode(&mut self) -> Mode {
        if self.mode == Mode::Uninit {
            self.mode = if self.inside { Mode::Compiler } else { Mode::Fallback };
        }
        self.mode
    }
    fn comp(&mut self) -> bool {
        self.mode() == Mode::Compiler
    }
    fn call_span(&mut self) -> MSpan {
        if self.comp() {
            MSpan::Comp(2)
        } else {
            MSpan::Call
        }
    }

    pub fn checker(&self, seed: u64, where_: &'static str) -> Checker<'_> {
        if self.faulted.get() {
            probe(P_AFTER_FAULT);
        }
        Checker { files: &self.files, epoch: self.epoch, rng: Rng::new(seed), spans: true, where_ }
    }

    fn call<R>(&self, op: &Op, f: impl FnOnce() -> R) -> Result<R, Caught> {
        let oom = !self.inside && !self.no_alloc_faults;
        let r = call(self.multi, oom, op, f);
        if r.is_err() {
            self.faulted.set(true);
        }
        r
    }

    fn unexpected(&self, op: &Op, c: &Caught) -> ! {
        let m = match c {
            Caught::Sim(_) => "injected panic".to_owned(),
            Caught::Oom => "allocation failure".to_owned(),
            Caught::Rpc => "injected compiler panic".to_owned(),
            Caught::Other(m) => m.clone(),
        };
        violation("panic", &format!("{} panicked: {}", op_name(op.k), m))
    }
    /// A fault that was injected is fine; any other panic is not.
    fn injected(&self, op: &Op, c: Caught) -> Caught {
        if let Caught::Other(_) = c {
            self.unexpected(op, &c)
        }
        c
    }

    fn new_file(&mut self, text: &str) -> u32 {
        let id = self.files.len() as u32 + 1;
        self.files.push(MFile {
            id,
            epoch: self.epoch,
            text: text.into(),
            chars: text.chars().count() as u32,
            name: RefCell::new(None),
            index: Default::default(),
        });
        id
    }

    fn add_stream(&mut self, real: TokenStream, m: Vec<MTok>, comp: bool) -> usize {
        if self.streams.len() >= 12 {
            let i = self.streams.len() % 5;
            self.streams.remove(i);
        }
        self.streams.push(St { real, m: Rc::new(m), comp, pristine: false, shared: false });
        self.streams.len() - 1
    }
    fn add_tree(&mut self, real: TokenTree, m: MTok) {
        if self.trees.len() >= 16 {
            self.trees.remove(3);
        }
        self.trees.push((real, m));
    }
    fn add_span(&mut self, real: Span, m: MSpan) {
        if self.spans.len() >= 24 {
            self.spans.remove(5);
        }
        self.spans.push((real, m));
    }

    /// Forget everything that belongs to the compiler (leaving a macro).
    pub fn drop_compiler_values(&mut self) {
        self.iters.retain(|i| !i.comp && !has_comp(&i.m));
        self.streams.retain(|s| !s.comp && !has_comp(&s.m));
        self.trees.retain(|t| !has_comp(std::slice::from_ref(&t.1)));
        self.spans.retain(|s| !matches!(s.1, MSpan::Comp(_)));
    }

    /// The tokens a macro was invoked with.
    #[cfg(feature = "bridge")]
    pub fn add_input(&mut self, ts: proc_macro::TokenStream, m: Vec<MTok>, seed: u64) {
        if self.mode == Mode::Uninit {
            // Looking at the input may or may not be a first use of the crate:
            // either leave it alone, or make the first use now.
            if self.untouched || seed % 2 == 0 {
                return;
            }
            let want = self.mode();
            if history::observe(seed as u32 >> 1) != (want == Mode::Compiler) {
                violation("mode", "first use inside a macro did not select the compiler's implementation");
            }
        }
        let ts = TokenStream::from(ts);
        self.checker(1, "input of the macro").stream_v(&ts, &m);
        self.add_stream(ts, m, true);
    }

    /// What the macro hands back to the compiler.
    #[cfg(feature = "bridge")]
    pub fn output(&mut self, seed: u64) -> (proc_macro::TokenStream, Vec<MTok>) {
        let c: Vec<usize> = (0..self.streams.len()).filter(|&i| self.streams[i].comp).collect();
        if c.is_empty() {
            return (proc_macro::TokenStream::new(), Vec::new());
        }
        let i = c[(seed % c.len() as u64) as usize];
        let m = self.streams[i].m.to_vec();
        let ts = if seed & 0x100 == 0 { self.streams.remove(i).real } else { self.streams[i].real.clone() };
        (ts.into(), m)
    }

    /// After the end of an expansion the compiler is gone; a program that goes
    /// on says so.
    pub fn left_macro(&mut self) {
        if self.mode == Mode::Compiler {
            proc_macro2_unforce();
            self.mode = Mode::Fallback;
        }
    }

    fn pick_stream(&self, a: u32) -> Option<usize> {
        if self.streams.is_empty() {
            None
        } else {
            Some(a as usize % self.streams.len())
        }
    }

    pub fn check_all(&self, seed: u64, where_: &'static str) {
        let mut ck = self.checker(seed, where_);
        for s in &self.streams {
            ck.stream(&s.real, &s.m);
        }
        for t in &self.trees {
            ck.tree(&t.0, &t.1);
        }
        for i in &self.iters {
            ck.iter(i.real.clone(), &i.m[i.at..]);
        }
        for s in &self.spans {
            ck.span(s.0, &s.1);
        }
    }

    fn note_state(&mut self, op: &Op, outcome: u64) {
        let mut f = 0u64;
        for (k, _) in &op.f {
            f |= 1 << k;
        }
        let sharing = self.streams.iter().filter(|s| s.shared).count().min(3) as u64;
        let v = (op.k as u64)
            | (self.last_k as u64) << 8
            | outcome << 16
            | sharing << 20
            | (self.iters.len().min(2) as u64) << 24
            | (self.epoch.min(2) as u64) << 26
            | (self.mode as u64) << 28
            | (self.inside as u64) << 30
            | f << 32;
        shared::state(v);
        self.last_k = op.k;
        log(v);
    }

    /// Doubling a stream again and again would make a run endless.
    fn prune(&mut self) {
        const LIMIT: usize = 3000;
        self.streams.retain(|s| weight(&s.m, LIMIT) < LIMIT);
        self.trees.retain(|t| weight(std::slice::from_ref(&t.1), LIMIT) < LIMIT);
    }

    pub fn exec(&mut self, ops: &[Op], start: usize) -> Stop {
        for i in start..ops.len() {
            let op = &ops[i];
            let sh = shared::get();
            sh.at.store((self.tid as u32) << 16 | i as u32, std::sync::atomic::Ordering::SeqCst);
            sh.ops[op.k as usize & 63].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            alloc::TAG.with(|t| t.set((self.tid as u64) << 32 | i as u64));
            sched::yield_point(sched::Y_OP, false);
            sh.at.store((self.tid as u32) << 16 | i as u32, std::sync::atomic::Ordering::SeqCst);
            match op.k {
                K_KILL => {
                    shared::fired(F_KILL);
                    return Stop::Kill(i + 1);
                }
                K_EXPANSION => return Stop::NextExpansion(i + 1),
                K_LEAVE => {
                    if self.inside {
                        return Stop::Leave(i + 1);
                    }
                }
                K_ENTER => {
                    if !self.inside {
                        return Stop::Enter(i + 1);
                    }
                }
                _ => {}
            }
            if matches!(op.k, K_EXT_TREES | K_EXT_TYPED | K_EXT_STREAMS | K_COLLECT | K_GROUP | K_FROM_TREE | K_CONVERT) {
                self.prune();
            }
            let first = self.mode == Mode::Uninit;
            if self.multi {
                sched::step_load(targets(op));
            }
            let outcome = self.op(op);
            sched::step_load(sched::NO_TARGETS);
            if first && self.mode != Mode::Uninit {
                // If a fault struck before the crate looked, the first use is now.
                if history::observe(op.s as u32) != (self.mode == Mode::Compiler) {
                    violation("mode", "the first use selected the wrong implementation");
                }
            }
            shared::observe(self.tid, &outcome.to_le_bytes());
            self.note_state(op, outcome);
        }
        Stop::End
    }

    fn op(&mut self, op: &Op) -> u64 {
        match op.k {
            K_PARSE => self.op_parse(op),
            K_BAD => self.op_bad(op),
            K_TORN => self.op_torn(op),
            K_CORRUPT => self.op_corrupt(op),
            K_LIT => self.op_lit(op),
            K_NEW => self.op_new(op),
            K_CLONE => self.op_clone(op),
            K_DROP => self.op_drop(op),
            K_EXT_TREES => self.op_ext_trees(op),
            K_EXT_TYPED => self.op_ext_typed(op),
            K_EXT_STREAMS => self.op_ext_streams(op),
            K_COLLECT => self.op_collect(op),
            K_ITER => self.op_iter(op),
            K_ITER_NEXT => self.op_iter_next(op),
            K_ITER_END => self.op_iter_end(op),
            K_GROUP => self.op_group(op),
            K_UNGROUP => self.op_ungroup(op),
            K_SET_SPAN => self.op_set_span(op),
            K_SPAN => self.op_span(op),
            K_JOIN => self.op_join(op),
            K_SUBSPAN => self.op_subspan(op),
            K_AT => self.op_at(op),
            K_CHECK => {
                if let Some(i) = self.pick_stream(op.a) {
                    let s = &self.streams[i];
                    self.checker(op.s, "check").stream(&s.real, &s.m);
                }
                0
            }
            K_CHECK_SPAN => {
                if !self.spans.is_empty() {
                    let s = &self.spans[op.a as usize % self.spans.len()];
                    self.checker(op.s, "span check").span(s.0, &s.1);
                    if op.b % 4 == 0 {
                        self.check_span_kind(op, s.0, &s.1);
                    }
                }
                0
            }
            K_CHECK_ALL => {
                self.check_all(op.s, "check of everything");
                0
            }
            K_FMT => self.op_fmt(op),
            K_INVALIDATE => self.op_invalidate(op),
            K_STALE => self.op_stale(op),
            K_MISUSE => self.op_misuse(op),
            K_FORCE => {
                proc_macro2_force();
                self.mode = Mode::Fallback;
                shared::fired(F_MODE);
                0
            }
            K_UNFORCE => {
                proc_macro2_unforce();
                self.mode = if self.inside { Mode::Compiler } else { Mode::Fallback };
                shared::fired(F_MODE);
                0
            }
            K_OBSERVE => self.op_observe(op),
            K_CONVERT => self.op_convert(op),
            K_DEEP => self.op_deep(op),
            K_STASH => self.op_stash(op),
            K_FROM_TREE => self.op_from_tree(op),
            K_MARATHON => self.op_marathon(op),
            K_RELEASE => self.op_release(op),
            K_IDENT_CMP => self.op_ident_cmp(op),
            K_HFORCE | K_HUNFORCE | K_HOBSERVE => {
                history::op(self, op);
                0
            }
            _ => 0,
        }
    }

    /// Conversion to the compiler's type and back, and comparison.
    fn check_span_kind(&self, op: &Op, s: Span, m: &MSpan) {
        #[cfg(feature = "bridge")]
        match m {
            MSpan::Comp(id) if self.inside => {
                let want = server::m_debug(*id);
                let (a, b) = (s.unwrap(), s.unstable());
                let (a, b, c) = (format!("{:?}", a), format!("{:?}", b), format!("{:?}", Span::from(a)));
                eval();
                if a != want || b != want || c != want {
                    violation("span", &format!("a span turned into {} and {} and back into {}; the compiler's is {}", a, b, c, want));
                }
            }
            MSpan::Call | MSpan::File { .. } => match self.call(&Op::new(K_CHECK_SPAN), || format!("{:?}", s.unwrap())) {
                Ok(x) => violation("mode", &format!("a self-contained span became the compiler span {}", x)),
                Err(Caught::Other(_)) => probe(P_MISMATCH),
                Err(c) => self.unexpected(op, &c),
            },
            _ => {}
        }
        #[cfg(feature = "exempt")]
        {
            let (t, n) = &self.spans[op.c as usize % self.spans.len()];
            let want = match (m, n) {
                _ if self.stale(m) || self.stale(n) => None,
                (MSpan::Comp(_), MSpan::Comp(_)) if !self.inside => None,
                (MSpan::Comp(x), MSpan::Comp(y)) => Some(x == y),
                (MSpan::Comp(_), _) | (_, MSpan::Comp(_)) => Some(false),
                (x, y) if cfg!(feature = "spans") => Some(x == y),
                _ => None,
            };
            let got = s.eq(t);
            if want.is_some_and(|w| w != got) {
                violation("span", &format!("eq is {} for spans {:?} and {:?}", got, m, n));
            }
        }
        let _ = (op, s, m);
    }

    // --- parsing -------------------------------------------------------------

    fn shape(&mut self, op: &Op, r: &mut Rng) -> Shape {
        let size = match op.a % 8 {
            0 => r.below(3),
            1..=4 => r.range(1, 12),
            5 | 6 => r.range(5, 40),
            _ => r.range(20, 200),
        };
        if self.comp() {
            Shape::plain(r, size)
        } else {
            let sh = Shape::random(r, size);
            match op.b & 15 {
                k @ 1..=12 if op.k == K_PARSE => {
                    probe(P_HUGE);
                    Shape { size: 1 + size % 13, huge: Some((k as u8 - 1, op.b >> 4)), ..sh }
                }
                _ => sh,
            }
        }
    }

    fn op_parse(&mut self, op: &Op) -> u64 {
        let mut r = Rng::new(op.s);
        let sh = self.shape(op, &mut r);
        let id = self.files.len() as u32 + 1;
        let g = text::valid(&mut r, sh, id);
        self.parse_text(op, &g.text, g.toks, true)
    }

    fn parse_text(&mut self, op: &Op, text: &str, toks: Vec<MTok>, pristine: bool) -> u64 {
        let comp = self.comp();
        #[cfg(feature = "bridge")]
        if comp {
            server::teach(text, &toks);
        }
        let expect = if comp { recolor(&toks, &MSpan::Comp(2)) } else { toks };
        let id = self.new_file(text);
        let _ = id;
        let extra = if op.k != K_PARSE || op.fault(F_LEX_ERR).or(op.fault(F_LEX_PANIC)).is_some() { 0 } else { op.c as usize };
        let fenced = alloc::fenced(text, op.s & 1 == 0);
        let r = self.call(op, || {
            for _ in 0..extra {
                let _ = fenced.parse::<TokenStream>();
            }
            fenced.parse::<TokenStream>()
        });
        drop(fenced);
        match r {
            Ok(Ok(ts)) => {
                #[cfg(feature = "bridge")]
                if comp && server::LEX_FIRED.with(|c| c.get()) {
                    // An injected failure of the compiler's lexer was hidden.
                    violation("rpc", "the compiler refused the text but parsing reported success");
                }
                self.checker(op.s, "just parsed").stream_v(&ts, &expect);
                let i = self.add_stream(ts, expect, comp);
                self.streams[i].pristine = pristine;
                0
            }
            Ok(Err(e)) => {
                #[cfg(feature = "bridge")]
                if comp && (server::LEX_FIRED.with(|c| c.get()) || server::rpc_fired()) {
                    probe(P_LEX_FAULT);
                    self.checker(op.s, "error of the compiler's lexer").span(e.span(), &MSpan::Comp(2));
                    let _ = (format!("{}", e), format!("{:?}", e));
                    self.keep_error(e);
                    return 2;
                }
                let _ = e;
                violation("reject", &format!("valid source was rejected: {:?}", trunc(text)))
            }
            Err(c) => {
                let c = self.injected(op, c);
                if let Caught::Rpc = c {
                    violation("rpc", "a panic in the compiler's lexer escaped from parsing");
                }
                1
            }
        }
    }

    fn op_bad(&mut self, op: &Op) -> u64 {
        let mut r = Rng::new(op.s);
        let sh = self.shape(op, &mut r);
        let bad = text::invalid(&mut r, sh);
        let comp = self.comp();
        let id = self.new_file(&bad.text);
        #[cfg(feature = "bridge")]
        server::lexed_reset();
        let text = &bad.text;
        let fenced = alloc::fenced(text, op.s & 1 == 0);
        let r = self.call(op, || fenced.parse::<TokenStream>());
        drop(fenced);
        match r {
            Ok(Ok(_)) => violation("accept", &format!("invalid source ({}) was accepted: {:?}", bad.why, bad.text)),
            Ok(Err(e)) => {
                if comp {
                    probe(P_INVALID_IN_MACRO);
                    #[cfg(feature = "bridge")]
                    {
                        if server::lexed_any() > 0 {
                            violation("rpc", &format!("invalid source ({}) reached the compiler's lexer: {:?}", bad.why, bad.text));
                        }
                        self.checker(op.s, "lex error").span(e.span(), &MSpan::Comp(2));
                    }
                } else {
                    self.check_lex_error(op, &e, id, bad.at, bad.why);
                }
                let _ = (e.to_string(), format!("{:?}", e));
                self.keep_error(e);
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn keep_error(&mut self, e: proc_macro2::LexError) {
        if self.errors.len() >= 6 {
            self.errors.remove(1);
        }
        self.errors.push(Rc::new(e));
    }

    fn check_lex_error(&self, op: &Op, e: &proc_macro2::LexError, id: u32, at: u32, why: &str) {
        shared::observe(self.tid, q(|| format!("{} {:?} {:?}", e, e, e.span())).as_bytes());
        #[cfg(feature = "spans")]
        {
            eval();
            let f = &self.files[id as usize - 1];
            let want = f.locate(at, at);
            let sp = e.span();
            let (s, b) = (sp.start(), sp.byte_range());
            if (s.line, s.column) != want.start || b.start != want.bytes.0 {
                violation(
                    "lexerr",
                    &format!(
                        "{} at {}:{} byte {}, but the error points at {}:{} byte {}: {:?}",
                        why, want.start.0, want.start.1, want.bytes.0, s.line, s.column, b.start, f.text
                    ),
                );
            }
            let name = sp.file();
            let known = f.name.borrow().clone();
            if known.is_some_and(|k| k != name) {
                violation("lexerr", "the error is in another file");
            }
            for o in &self.files {
                if o.epoch == self.epoch && o.id != id && o.name.borrow().as_deref() == Some(&*name) {
                    violation("lexerr", &format!("the error claims to be in {:?}, the file of source {}", name, o.id));
                }
            }
            let _ = op;
        }
        #[cfg(not(feature = "spans"))]
        let _ = (op, e, id, at, why);
    }

    fn op_torn(&mut self, op: &Op) -> u64 {
        let mut r = Rng::new(op.s);
        let sh = self.shape(op, &mut r);
        let id = self.files.len() as u32 + 1;
        let g = text::valid(&mut r, sh, id);
        if g.cuts.is_empty() {
            return 9;
        }
        let cut = &g.cuts[op.b as usize % g.cuts.len()];
        shared::fired(F_IO);
        let text = g.text[..cut.byte].to_owned();
        match text::expect_prefix(&g, cut) {
            Some(toks) => {
                probe(P_ACCEPT);
                self.parse_text(op, &text, toks, true)
            }
            None => {
                probe(P_REJECT);
                self.new_file(&text);
                #[cfg(feature = "bridge")]
                server::lexed_reset();
                let fenced = alloc::fenced(&text, op.s & 1 == 0);
                let r = self.call(op, || fenced.parse::<TokenStream>());
                drop(fenced);
                match r {
                    Ok(Ok(_)) => violation("accept", &format!("source cut inside a delimiter was accepted: {:?}", text)),
                    Ok(Err(_)) => {
                        #[cfg(feature = "bridge")]
                        if self.comp() && server::lexed_any() > 0 {
                            violation("rpc", "truncated source reached the compiler's lexer");
                        }
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            }
        }
    }

    fn op_corrupt(&mut self, op: &Op) -> u64 {
        let mut r = Rng::new(op.s);
        let sh = self.shape(op, &mut r);
        let g = text::valid(&mut r, sh, 0);
        let mut text = g.text;
        for _ in 0..1 + op.b % 3 {
            text = text::corrupt(&mut r, &text).0;
        }
        shared::fired(F_IO);
        if self.comp() {
            return self.corrupt_in_macro(op, text);
        }
        let id = self.new_file(&text);
        let fenced = alloc::fenced(&text, op.s & 1 == 0);
        let r = self.call(op, || fenced.parse::<TokenStream>());
        drop(fenced);
        let mine = match r {
            Ok(x) => x,
            Err(c) => {
                self.injected(op, c);
                return 1;
            }
        };
        // A reader with no history must see the same thing.
        let t2 = text.clone();
        let fresh = if self.multi {
            // Another simulated thread may be suspended in the crate with a lock
            // held, which a thread the scheduler does not know could never get.
            Ok(match &mine {
                Ok(ts) => Ok(crate::model_of(ts)),
                Err(e) => {
                    #[cfg(feature = "spans")]
                    let at = Some(e.span().byte_range().start);
                    #[cfg(not(feature = "spans"))]
                    let at: Option<usize> = {
                        let _ = e;
                        None
                    };
                    Err(at)
                }
            })
        } else {
            let _hw = sched::harness_wait();
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || match t2.parse::<TokenStream>() {
                    Ok(ts) => Ok(crate::model_of(&ts)),
                    Err(e) => {
                        #[cfg(feature = "spans")]
                        let at = Some(e.span().byte_range().start);
                        #[cfg(not(feature = "spans"))]
                        let at: Option<usize> = {
                            let _ = e;
                            None
                        };
                        Err(at)
                    }
                })
                .unwrap()
                .join()
        };
        let fresh = match fresh {
            Ok(f) => f,
            Err(_) => violation("panic", &format!("parsing damaged text panicked in a fresh thread: {:?}", text)),
        };
        eval();
        match (mine, fresh) {
            (Ok(ts), Ok(flat)) => {
                probe(P_ACCEPT);
                let here = crate::model_of(&ts);
                if here != flat {
                    violation("token", &format!("the same damaged text parses differently in a fresh thread: {:?}", text));
                }
                self.check_layout(&ts, id, &text);
                0
            }
            (Err(e), Err(at)) => {
                probe(P_REJECT);
                #[cfg(feature = "spans")]
                {
                    let b = e.span().byte_range();
                    if Some(b.start) != at || b.end > text.len() || !text.is_char_boundary(b.start) {
                        violation("lexerr", &format!("error at byte {:?} of {} ({:?} in a fresh thread): {:?}", b, text.len(), at, text));
                    }
                    let want = locate(&text, text[..b.start].chars().count() as u32, u32::MAX);
                    let s = e.span().start();
                    if (s.line, s.column) != want.start {
                        violation("lexerr", &format!("error line/column {}:{} does not match byte {}", s.line, s.column, b.start));
                    }
                }
                let _ = (e, at);
                2
            }
            _ => violation("accept", &format!("damaged text accepted by one thread and rejected by another: {:?}", text)),
        }
    }

    /// Damaged source inside a macro: what the library itself rejects must be
    /// an error and must not reach the compiler.
    #[cfg(not(feature = "bridge"))]
    fn corrupt_in_macro(&mut self, _: &Op, _: String) -> u64 {
        9
    }
    #[cfg(feature = "bridge")]
    fn corrupt_in_macro(&mut self, op: &Op, text: String) -> u64 {
        if self.multi {
            return 9;
        }
        // The library's own verdict, from a thread without history.
        let t2 = text.clone();
        proc_macro2_force();
        let verdict = {
            let _hw = sched::harness_wait();
            std::thread::Builder::new().stack_size(512 << 10).spawn(move || t2.parse::<TokenStream>().is_ok()).unwrap().join()
        };
        proc_macro2_unforce();
        let Ok(verdict) = verdict else {
            violation("panic", &format!("parsing damaged text panicked in a fresh thread: {:?}", text))
        };
        self.new_file(&text);
        server::lexed_reset();
        let fenced = alloc::fenced(&text, op.s & 1 == 0);
        let r = self.call(op, || fenced.parse::<TokenStream>());
        drop(fenced);
        eval();
        let asked = server::lexed_any();
        if !verdict && asked > 0 {
            violation("rpc", &format!("damaged source that the library rejects reached the compiler's lexer: {:?}", text));
        }
        match r {
            Ok(Ok(_)) if !verdict => violation("accept", &format!("damaged source that the library rejects was accepted: {:?}", text)),
            Ok(Ok(_)) => {
                probe(P_ACCEPT);
                if server::LEX_FIRED.with(|c| c.get()) {
                    violation("rpc", "the compiler refused the text but parsing reported success");
                }
                0
            }
            Ok(Err(e)) => {
                probe(P_REJECT);
                if verdict && asked == 0 && !server::rpc_fired() {
                    violation("reject", &format!("the library accepts this text, but not inside a macro: {:?}", text));
                }
                if !verdict {
                    probe(P_INVALID_IN_MACRO);
                }
                self.checker(op.s, "lex error").span(e.span(), &MSpan::Comp(2));
                let _ = (e.to_string(), format!("{:?}", e));
                self.keep_error(e);
                2
            }
            Err(c) => {
                if let Caught::Rpc = self.injected(op, c) {
                    violation("rpc", "a panic in the compiler's lexer escaped from parsing");
                }
                1
            }
        }
    }

    /// Tokens of an accepted text lie inside it, in order, properly nested, and
    /// each leaf's source text is its spelling.
    fn check_layout(&self, ts: &TokenStream, id: u32, text: &str) {
        #[cfg(feature = "spans")]
        {
            let mut stack = vec![(ts.clone().into_iter(), 0usize, text.len())];
            let mut doc_until = 0usize;
            while let Some((it, pos, end)) = stack.last_mut() {
                let Some(t) = it.next() else {
                    stack.pop();
                    continue;
                };
                let b = t.span().byte_range();
                let src = t.span().source_text();
                let bad = |m: &str| -> ! {
                    violation("span", &format!("{}: token `{}` at bytes {:?} of source {} {:?}", m, short(&t), b, id, text))
                };
                if b.end > text.len() || src.as_deref() != Some(&text[b.start..b.end]) {
                    bad("source_text differs from the bytes at byte_range");
                }
                let body = &text[b.start..b.end];
                if body.starts_with("//") || body.starts_with("/*") {
                    // The tokens of a doc comment all cover the comment.
                    if b.start < *pos && b.end != doc_until {
                        bad("doc comment overlaps the previous token");
                    }
                    *pos = b.end;
                    doc_until = b.end;
                    continue;
                }
                if b.start < *pos || b.end > *end || b.start >= b.end {
                    bad("token overlaps its neighbours");
                }
                *pos = b.end;
                match &t {
                    TokenTree::Group(g) => {
                        let (o, c) = (g.span_open().byte_range(), g.span_close().byte_range());
                        if o.start != b.start || o.end != b.start + 1 || c.end != b.end || c.start != b.end - 1 {
                            bad("delimiter spans are not the ends of the group");
                        }
                        stack.push((g.stream().into_iter(), b.start + 1, b.end - 1));
                    }
                    TokenTree::Ident(i) if i.to_string() != body => bad("identifier differs from its source"),
                    TokenTree::Punct(p) if p.as_char().to_string() != body => bad("punctuation differs from its source"),
                    TokenTree::Literal(l) if l.to_string() != body => bad("literal differs from its source"),
                    _ => {}
                }
            }
        }
        #[cfg(not(feature = "spans"))]
        let _ = (ts, id, text);
    }

    fn op_lit(&mut self, op: &Op) -> u64 {
        let mut r = Rng::new(op.s);
        let comp = self.comp();
        let neg = op.a % 4 == 0;
        let bad = op.a % 4 == 1;
        let text: &str = if bad {
            text::BAD_LITS[op.b as usize % text::BAD_LITS.len()]
        } else if neg {
            text::NEG_NUMS[op.b as usize % text::NEG_NUMS.len()]
        } else {
            text::literal_text(&mut r, comp)
        };
        let id = self.new_file(text);
        #[cfg(feature = "bridge")]
        server::lexed_reset();
        let fenced = alloc::fenced(text, op.s & 1 == 0);
        let res = self.call(op, || fenced.parse::<Literal>());
        drop(fenced);
        match res {
            Ok(Ok(l)) => {
                if bad {
                    violation("accept", &format!("{:?} was accepted as a literal", text));
                }
                #[cfg(feature = "bridge")]
                if comp && server::LEX_FIRED.with(|c| c.get()) {
                    violation("rpc", "the compiler refused the literal but parsing reported success");
                }
                let span = if comp {
                    MSpan::Comp(2)
                } else {
                    MSpan::File { file: id, lo: 0, hi: text.chars().count() as u32 }
                };
                let t = TokenTree::Literal(l);
                let m = MTok::Lit { repr: text.into(), span };
                self.checker(op.s, "literal just parsed").tree(&t, &m);
                self.add_tree(t, m);
                0
            }
            Ok(Err(e)) => {
                #[cfg(feature = "bridge")]
                {
                    if comp && (server::LEX_FIRED.with(|c| c.get()) || server::rpc_fired()) {
                        probe(P_LEX_FAULT);
                        return 2;
                    }
                    if comp && bad && server::lexed_any() > 0 {
                        violation("rpc", &format!("invalid literal {:?} reached the compiler's lexer", text));
                    }
                    if comp && bad {
                        probe(P_INVALID_IN_MACRO);
                    }
                }
                if !bad {
                    violation("reject", &format!("valid literal {:?} was rejected", text));
                }
                let _ = (e.span(), e.to_string(), format!("{:?}", e));
                2
            }
            Err(c) => {
                let c = self.injected(op, c);
                if let Caught::Rpc = c {
                    violation("rpc", "a panic in the compiler's lexer escaped from parsing a literal");
                }
                1
            }
        }
    }

    // --- building ------------------------------------------------------------

    fn op_new(&mut self, op: &Op) -> u64 {
        let call = self.call_span();
        let comp = self.comp();
        let pick = self.spans.get(op.b as usize % self.spans.len().max(1)).cloned();
        // A span of the right kind to hand to constructors.
        let sp = pick.filter(|s| op.c % 2 == 0 && matches!(s.1, MSpan::Comp(_)) == comp);
        let kind = op.a % 12;
        let n = (op.s % 200) as u8;
        let lit = literal(op.s);
        let r = self.call(op, || -> (TokenTree, MTok) {
            match kind {
                0 | 1 => {
                    let names = ["made", "x1", "ß", "_z", "dyn", "quite_a_long_name_for_an_identifier_made_by_hand", "переменная"];
                    let nm = names[n as usize % names.len()];
                    let (s, m) = match &sp {
                        Some((s, m)) => (*s, m.clone()),
                        None => (Span::call_site(), call.clone()),
                    };
                    if kind == 0 {
                        (Ident::new(nm, s).into(), MTok::Ident { text: nm.into(), span: m })
                    } else {
                        (Ident::new_raw(nm, s).into(), MTok::Ident { text: format!("r#{nm}").into(), span: m })
                    }
                }
                2 | 3 => {
                    let all = b"+'#,-~!@$%^&*=|;:<.>/?";
                    let ch = all[if n < 100 { n as usize % 5 } else { n as usize % all.len() }] as char;
                    let joint = kind == 3;
                    (
                        Punct::new(ch, if joint { Spacing::Joint } else { Spacing::Alone }).into(),
                        MTok::Punct { ch, joint, span: call.clone() },
                    )
                }
                4..=10 => {
                    let (l, t) = lit((op.s >> 8) as u8);
                    (l.into(), MTok::Lit { repr: t.into(), span: call.clone() })
                }
                _ => {
                    let g = Group::new(delim_to((n % 4) as u8), TokenStream::new());
                    (
                        g.into(),
                        MTok::Group {
                            delim: (n % 4) as u8,
                            toks: Rc::new(vec![]),
                            span: call.clone(),
                            open: call.clone(),
                            close: call.clone(),
                        },
                    )
                }
            }
        });
        match r {
            Ok((t, m)) => {
                self.checker(op.s, "just made").tree(&t, &m);
                if op.c % 8 == 7 {
                    let r = self.call(&Op::new(K_NEW), TokenStream::new);
                    if let Ok(ts) = r {
                        self.add_stream(ts, vec![], comp);
                    }
                }
                self.add_tree(t, m);
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_clone(&mut self, op: &Op) -> u64 {
        match op.b % 4 {
            0 if !self.trees.is_empty() => {
                let i = op.a as usize % self.trees.len();
                let src = &self.trees[i];
                match self.call(op, || src.0.clone()) {
                    Ok(t) => {
                        let m = self.trees[i].1.clone();
                        self.add_tree(t, m);
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            }
            1 if !self.iters.is_empty() => {
                let i = op.a as usize % self.iters.len();
                let src = &self.iters[i];
                match self.call(op, || src.real.clone()) {
                    Ok(t) => {
                        let (m, at, comp) = (src.m.clone(), src.at, src.comp);
                        if self.iters.len() >= 6 {
                            self.iters.remove(0);
                        }
                        self.iters.push(It { real: t, m, at, comp });
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            }
            _ => {
                let Some(i) = self.pick_stream(op.a) else { return 9 };
                let src = &self.streams[i];
                match self.call(op, || src.real.clone()) {
                    Ok(t) => {
                        let (m, comp, pristine) = (src.m.clone(), src.comp, src.pristine);
                        self.streams[i].shared = true;
                        let j = self.add_stream(t, vec![], comp);
                        let s = &mut self.streams[j];
                        s.m = m;
                        s.pristine = pristine;
                        s.shared = true;
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            }
        }
    }

    fn op_drop(&mut self, op: &Op) -> u64 {
        let r = match op.b % 4 {
            0 if !self.trees.is_empty() => {
                let i = op.a as usize % self.trees.len();
                let t = self.trees.remove(i);
                self.call(op, move || drop(t.0))
            }
            1 if !self.iters.is_empty() => {
                let i = op.a as usize % self.iters.len();
                let t = self.iters.remove(i);
                self.call(op, move || drop(t.real))
            }
            _ => {
                let Some(i) = self.pick_stream(op.a) else { return 9 };
                let t = self.streams.remove(i);
                self.call(op, move || drop(t.real))
            }
        };
        match r {
            Ok(()) => 0,
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    /// Trees suited to a target, `n` of them, as clones.
    fn some_trees(&mut self, op: &Op, n: usize) -> Vec<(TokenTree, MTok)> {
        let mut v: Vec<(TokenTree, MTok)> = Vec::new();
        if self.trees.is_empty() {
            return v;
        }
        for k in 0..n {
            let i = op.s.rotate_right(k as u32 * 5) as usize % self.trees.len();
            let (t, m) = &self.trees[i];
            v.push((t.clone(), m.clone()));
        }
        // Sometimes the last one is moved rather than copied.
        if op.c % 3 == 0 && !self.trees.is_empty() {
            let i = op.b as usize % self.trees.len();
            v.push(self.trees.remove(i));
        }
        v
    }

    /// After an extension of `target` by `items` ended with `r`, work out which
    /// of the states the model allows the target is in.
    fn settle_extend(
        &mut self,
        op: &Op,
        i: usize,
        r: Result<(), Caught>,
        steps: Vec<Vec<MTok>>,
        mismatch_possible: bool,
        mismatch_sure: bool,
    ) -> u64 {
        // steps[k] = contents after k items (steps[0] = before).
        let comp = self.streams[i].comp;
        let full = steps.last().unwrap().clone();
        match r {
            Ok(()) => {
                if mismatch_sure {
                    violation("mode", "compiler and fallback values were mixed without complaint");
                }
                self.streams[i].m = Rc::new(full);
                self.streams[i].pristine = false;
                0
            }
            Err(c) => {
                let c = match c {
                    Caught::Other(m) if mismatch_possible => {
                        probe(P_MISMATCH);
                        Caught::Other(m)
                    }
                    c => self.injected(op, c),
                };
                probe(P_PREFIX);
                if let Caught::Rpc = c {
                    // The compiler's client library gives up the stream it was
                    // extending when the compiler panics.
                    self.streams.remove(i);
                    return 3;
                }
                let _ = comp;
                let n = self.streams[i].real.clone().into_iter().count();
                // Single tokens may be split in two; any token-wise prefix.
                let base = &steps[0];
                if n < base.len() || n > full.len() {
                    violation(
                        "token",
                        &format!(
                            "after an interrupted extension the stream has {} tokens; it had {} and was given {} more",
                            n,
                            base.len(),
                            full.len() - base.len()
                        ),
                    );
                }
                let m: Vec<MTok> = full[..n].to_vec();
                self.checker(op.s, "after an interrupted extension").stream_v(&self.streams[i].real, &m);
                self.streams[i].m = Rc::new(m);
                self.streams[i].pristine = false;
                1
            }
        }
    }

    /// What a callback does in the middle of an operation on `alias`'s storage.
    fn reenter(&mut self, op: &Op, kind: u8, real: &TokenStream, m: &Rc<Vec<MTok>>, comp: bool) -> (Option<Box<dyn FnMut()>>, Rc<RefCell<Option<(TokenStream, Vec<MTok>)>>>) {
        let hold: Rc<RefCell<Option<(TokenStream, Vec<MTok>)>>> = Rc::new(RefCell::new(None));
        let Some(v) = op.fault(kind) else { return (None, hold) };
        *hold.borrow_mut() = Some((real.clone(), m.to_vec()));
        let h = hold.clone();
        let act = v as u8 % 8;
        let inside = self.inside;
        let same_mode = self.comp() == comp;
        let call = self.call_span();
        let f = move || {
            match act {
                0 => {
                    h.borrow_mut().take();
                }
                1 => {
                    if same_mode {
                        if let Some((ts, m)) = &mut *h.borrow_mut() {
                            ts.extend([TokenTree::Ident(Ident::new("again", Span::call_site()))]);
                            m.push(MTok::Ident { text: "again".into(), span: call.clone() });
                        }
                    }
                }
                2 => {
                    if let Some((ts, m)) = &*h.borrow() {
                        let n = ts.clone().into_iter().count();
                        if n != m.len() {
                            violation("token", "an alias changed while another handle was being extended");
                        }
                    }
                }
                3 => {
                    if !inside {
                        let ts: TokenStream = "re entrant ( parse )".parse().unwrap_or_else(|_| violation("reject", "re-entrant parse failed"));
                        if ts.into_iter().count() != 3 {
                            violation("token", "re-entrant parse returned something else");
                        }
                    }
                }
                4 => {
                    let _ = format!("{:?}", Span::call_site());
                    #[cfg(feature = "spans")]
                    if !inside {
                        let _ = Span::call_site().start();
                    }
                }
                5 => {
                    if let Some((ts, _)) = &*h.borrow() {
                        let _ = ts.to_string();
                    }
                }
                6 => {
                    // Consume the alias through its iterator, halfway.
                    if let Some((ts, _)) = h.borrow_mut().take() {
                        let mut it = ts.into_iter();
                        it.next();
                    }
                }
                _ => {
                    let x = h.borrow().as_ref().map(|x| x.0.clone());
                    if let Some(x) = x {
                        let y: TokenStream = [x.clone(), x].into_iter().collect();
                        drop(y);
                    }
                }
            };
        };
        (Some(Box::new(f)), hold)
    }

    fn settle_alias(&mut self, op: &Op, hold: Rc<RefCell<Option<(TokenStream, Vec<MTok>)>>>, comp: bool) {
        let x = hold.borrow_mut().take();
        if let Some((ts, m)) = x {
            self.checker(op.s, "alias of a stream extended meanwhile").stream_v(&ts, &m);
            let i = self.add_stream(ts, m, comp);
            self.streams[i].shared = true;
        }
    }

    fn op_ext_trees(&mut self, op: &Op) -> u64 {
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let mut st = self.streams.remove(i);
        let comp = st.comp;
        // Few tokens, seldom many.
        let n = if op.b % 24 == 23 { op.b as usize / 24 % 160 } else { op.b as usize % 5 };
        let items = self.some_trees(op, n);
        if st.shared {
            probe(P_CLONE_SHARED);
        }
        let mut cur: Vec<MTok> = st.m.to_vec();
        let mut steps = vec![cur.clone()];
        let mut mismatch = false;
        for (_, m) in &items {
            if comp && !has_comp_kind(m) {
                mismatch = true;
            }
            if !mismatch {
                let before = cur.len();
                push_tok(&mut cur, m.clone(), comp);
                if cur.len() > before + 1 {
                    probe(P_NEG_SPLIT);
                }
                if !comp && m.is_compiler() {
                    probe(P_HETERO);
                }
                steps.push(cur.clone());
            }
        }
        let (action, hold) = self.reenter(op, F_REENTER, &st.real, &st.m, comp);
        let real: Vec<TokenTree> = items.into_iter().map(|x| x.0).collect();
        let it = SimIter::new(real, op, action);
        let r = {
            let t = &mut st.real;
            self.call(op, move || t.extend(it))
        };
        st.shared = false;
        let last = self.streams.len().min(i);
        self.streams.insert(last, st);
        let o = self.settle_extend(op, last, r, steps, mismatch, mismatch);
        self.settle_alias(op, hold, comp);
        o
    }

    fn op_ext_typed(&mut self, op: &Op) -> u64 {
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let mut st = self.streams.remove(i);
        let comp = st.comp;
        let want = op.b % 4;
        let items: Vec<(TokenTree, MTok)> = self
            .trees
            .iter()
            .filter(|t| {
                matches!(
                    (&t.0, want),
                    (TokenTree::Group(_), 0) | (TokenTree::Ident(_), 1) | (TokenTree::Punct(_), 2) | (TokenTree::Literal(_), 3)
                ) && (!comp || has_comp_kind(&t.1))
            })
            .take(1 + op.c as usize % 4)
            .map(|t| (t.0.clone(), t.1.clone()))
            .collect();
        let mut cur: Vec<MTok> = st.m.to_vec();
        let mut steps = vec![cur.clone()];
        for (_, m) in &items {
            push_tok(&mut cur, m.clone(), comp);
            steps.push(cur.clone());
        }
        let (action, hold) = self.reenter(op, F_REENTER, &st.real, &st.m, comp);
        let real: Vec<TokenTree> = items.into_iter().map(|x| x.0).collect();
        macro_rules! go {
            ($v:ident) => {{
                let it = SimIter::new(
                    real.into_iter()
                        .filter_map(|t| match t {
                            TokenTree::$v(x) => Some(x),
                            _ => None,
                        })
                        .collect(),
                    op,
                    action,
                );
                let t = &mut st.real;
                self.call(op, move || t.extend(it))
            }};
        }
        let r = match want {
            0 => go!(Group),
            1 => go!(Ident),
            2 => go!(Punct),
            _ => go!(Literal),
        };
        st.shared = false;
        let at = self.streams.len().min(i);
        self.streams.insert(at, st);
        let o = self.settle_extend(op, at, r, steps, false, false);
        self.settle_alias(op, hold, comp);
        o
    }

    fn op_ext_streams(&mut self, op: &Op) -> u64 {
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let mut st = self.streams.remove(i);
        let comp = st.comp;
        let mut items: Vec<(TokenStream, Rc<Vec<MTok>>, bool)> = Vec::new();
        let n = op.b as usize % 4;
        if !self.streams.is_empty() {
            for k in 0..n {
                let j = (op.s >> (k * 6)) as usize % self.streams.len();
                let s = &mut self.streams[j];
                s.shared = true;
                items.push((s.real.clone(), s.m.clone(), s.comp));
            }
            if op.c % 3 == 0 {
                let j = op.c as usize % self.streams.len();
                let s = self.streams.remove(j);
                items.push((s.real, s.m, s.comp));
            }
        }
        if op.c % 5 == 1 {
            // A stream extended by a copy of itself.
            items.push((st.real.clone(), st.m.clone(), comp));
        }
        let mut cur: Vec<MTok> = st.m.to_vec();
        let mut steps = vec![cur.clone()];
        // Nothing at all of the other kind is nothing to get wrong.
        let (mut mismatch, mut hard) = (false, false);
        for (_, m, c) in &items {
            if *c != comp {
                mismatch = true;
            }
            if *c != comp && !m.is_empty() {
                hard = true;
            }
            if !hard {
                cur.extend(m.iter().cloned());
                steps.push(cur.clone());
            }
        }
        if cur.len() > 4000 {
            self.streams.insert(0, st);
            return 9;
        }
        let (action, hold) = self.reenter(op, F_REENTER, &st.real, &st.m, comp);
        let real: Vec<TokenStream> = items.into_iter().map(|x| x.0).collect();
        let it = SimIter::new(real, op, action);
        let r = {
            let t = &mut st.real;
            self.call(op, move || t.extend(it))
        };
        st.shared = false;
        let at = self.streams.len().min(i);
        self.streams.insert(at, st);
        let o = self.settle_extend(op, at, r, steps, mismatch, hard);
        self.settle_alias(op, hold, comp);
        o
    }

    fn op_collect(&mut self, op: &Op) -> u64 {
        let comp = self.comp();
        if op.a % 2 == 0 {
            let items = self.some_trees(op, op.b as usize % 6);
            let mut cur = Vec::new();
            let mut mismatch = false;
            for (_, m) in &items {
                if comp && !has_comp_kind(m) {
                    mismatch = true;
                }
                push_tok(&mut cur, m.clone(), comp);
            }
            let real: Vec<TokenTree> = items.into_iter().map(|x| x.0).collect();
            let it = SimIter::new(real, op, None);
            match self.call(op, move || it.collect::<TokenStream>()) {
                Ok(ts) => {
                    if mismatch {
                        violation("mode", "compiler and fallback values were mixed without complaint");
                    }
                    self.checker(op.s, "just collected").stream_v(&ts, &cur);
                    self.add_stream(ts, cur, comp);
                    0
                }
                Err(Caught::Other(_)) if mismatch => {
                    probe(P_MISMATCH);
                    1
                }
                Err(c) => {
                    self.injected(op, c);
                    1
                }
            }
        } else {
            let mut items: Vec<(TokenStream, Rc<Vec<MTok>>, bool)> = Vec::new();
            if !self.streams.is_empty() {
                for k in 0..op.b as usize % 4 {
                    let j = (op.s >> (k * 6)) as usize % self.streams.len();
                    let s = &mut self.streams[j];
                    s.shared = true;
                    items.push((s.real.clone(), s.m.clone(), s.comp));
                }
                if op.c % 3 == 0 {
                    let j = op.c as usize % self.streams.len();
                    let s = self.streams.remove(j);
                    items.push((s.real, s.m, s.comp));
                }
            }
            let rcomp = items.first().map_or(comp, |x| x.2);
            let mismatch = items.iter().any(|x| x.2 != rcomp);
            let hard = items.iter().any(|x| x.2 && !x.1.is_empty()) && items.iter().any(|x| !x.2 && !x.1.is_empty());
            let cur: Vec<MTok> = items.iter().flat_map(|x| x.1.iter().cloned()).collect();
            if cur.len() > 4000 {
                return 9;
            }
            let real: Vec<TokenStream> = items.into_iter().map(|x| x.0).collect();
            let it = SimIter::new(real, op, None);
            match self.call(op, move || it.collect::<TokenStream>()) {
                Ok(ts) => {
                    if hard {
                        violation("mode", "compiler and fallback values were mixed without complaint");
                    }
                    self.checker(op.s, "just collected").stream_v(&ts, &cur);
                    if !mismatch {
                        self.add_stream(ts, cur, rcomp);
                    }
                    0
                }
                Err(Caught::Other(_)) if mismatch => {
                    probe(P_MISMATCH);
                    1
                }
                Err(c) => {
                    self.injected(op, c);
                    1
                }
            }
        }
    }

    fn op_from_tree(&mut self, op: &Op) -> u64 {
        if self.trees.is_empty() {
            return 9;
        }
        let comp = self.comp();
        let i = op.a as usize % self.trees.len();
        let (t, m) = if op.b % 2 == 0 { (self.trees[i].0.clone(), self.trees[i].1.clone()) } else { self.trees.remove(i) };
        let mismatch = comp && !has_comp_kind(&m);
        let mut v = Vec::new();
        push_tok(&mut v, m, comp);
        match self.call(op, move || TokenStream::from(t)) {
            Ok(ts) => {
                if mismatch {
                    violation("mode", "compiler and fallback values were mixed without complaint");
                }
                self.checker(op.s, "stream of one token").stream_v(&ts, &v);
                self.add_stream(ts, v, comp);
                0
            }
            Err(Caught::Other(_)) if mismatch => {
                probe(P_MISMATCH);
                1
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    // --- iterating -----------------------------------------------------------

    fn op_iter(&mut self, op: &Op) -> u64 {
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let (m, comp) = (self.streams[i].m.clone(), self.streams[i].comp);
        let r = if op.b % 3 == 0 {
            let s = self.streams.remove(i);
            self.call(op, move || s.real.into_iter())
        } else {
            probe(P_ITER_ALIAS);
            let s = &self.streams[i].real;
            self.call(op, move || s.clone().into_iter())
        };
        match r {
            Ok(real) => {
                if self.iters.len() >= 6 {
                    self.iters.remove(1);
                }
                self.iters.push(It { real, m, at: 0, comp });
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_iter_next(&mut self, op: &Op) -> u64 {
        if self.iters.is_empty() {
            return 9;
        }
        let i = op.a as usize % self.iters.len();
        let mut it = self.iters.remove(i);
        let n = 1 + op.b as usize % 4;
        let mut got: Vec<Option<TokenTree>> = Vec::with_capacity(n);
        let r = {
            let (real, got) = (&mut it.real, &mut got);
            self.call(op, move || {
                for _ in 0..n {
                    let t = real.next();
                    let end = t.is_none();
                    {
                        let _p = pause();
                        got.push(t);
                    }
                    if end {
                        break;
                    }
                }
            })
        };
        if let Err(c) = r {
            let c = self.injected(op, c);
            if let Caught::Rpc = c {
                return 3; // the iterator is given up
            }
        }
        for t in got {
            match (t, it.m.get(it.at)) {
                (None, None) => {}
                (Some(t), Some(m)) => {
                    self.checker(op.s, "from an iterator").tree(&t, m);
                    if op.c % 4 == 0 {
                        self.add_tree(t, m.clone());
                    }
                    it.at += 1;
                }
                (None, Some(m)) => violation("token", &format!("iterator ended before `{}`", show(std::slice::from_ref(m)))),
                (Some(t), None) => violation("token", &format!("iterator produced an extra `{}`", short(&t))),
            }
        }
        self.iters.push(it);
        0
    }

    fn op_iter_end(&mut self, op: &Op) -> u64 {
        if self.iters.is_empty() {
            return 9;
        }
        let i = op.a as usize % self.iters.len();
        let it = self.iters.remove(i);
        let m: Vec<MTok> = it.m[it.at..].to_vec();
        let comp = self.comp();
        if comp != it.comp || (comp && m.iter().any(|t| !has_comp_kind(t))) {
            self.checker(op.s, "rest of an iterator").iter(it.real, &m);
            return 2;
        }
        match self.call(op, move || it.real.collect::<TokenStream>()) {
            Ok(ts) => {
                let mut v = Vec::new();
                for t in m {
                    push_tok(&mut v, t, comp);
                }
                self.checker(op.s, "rest of an iterator, collected").stream_v(&ts, &v);
                self.add_stream(ts, v, comp);
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    // --- groups --------------------------------------------------------------

    fn op_group(&mut self, op: &Op) -> u64 {
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let s = if op.c % 2 == 0 {
            self.streams.remove(i)
        } else {
            let s = &mut self.streams[i];
            s.shared = true;
            St { real: s.real.clone(), m: s.m.clone(), comp: s.comp, pristine: false, shared: true }
        };
        let span = if s.comp { MSpan::Comp(2) } else { MSpan::Call };
        let d = (op.b % 4) as u8;
        let real = s.real;
        match self.call(op, move || Group::new(delim_to(d), real)) {
            Ok(g) => {
                let m = MTok::Group { delim: d, toks: s.m, span: span.clone(), open: span.clone(), close: span };
                let t = TokenTree::Group(g);
                self.checker(op.s, "new group").tree(&t, &m);
                self.add_tree(t, m);
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_ungroup(&mut self, op: &Op) -> u64 {
        let gs: Vec<usize> = (0..self.trees.len()).filter(|&i| matches!(self.trees[i].0, TokenTree::Group(_))).collect();
        if gs.is_empty() {
            return 9;
        }
        let i = gs[op.a as usize % gs.len()];
        let (TokenTree::Group(g), MTok::Group { toks, .. }) = (&self.trees[i].0, self.trees[i].1.clone()) else { return 9 };
        match self.call(op, || g.stream()) {
            Ok(ts) => {
                let comp = crate::is_comp_group(&self.trees[i].1);
                let j = self.add_stream(ts, vec![], comp);
                self.streams[j].m = toks;
                self.streams[j].shared = true;
                if op.b % 3 == 0 {
                    self.trees.remove(i);
                }
                0
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_set_span(&mut self, op: &Op) -> u64 {
        if self.trees.is_empty() || self.spans.is_empty() {
            return 9;
        }
        let i = op.a as usize % self.trees.len();
        let (s, ms) = self.spans[op.b as usize % self.spans.len()].clone();
        let is_c = matches!(ms, MSpan::Comp(_));
        if matches!(ms, MSpan::Any) {
            return 9;
        }
        let tree_c = has_comp_kind(&self.trees[i].1);
        // A Punct takes any span; everything else belongs to one side.
        let punct = matches!(self.trees[i].0, TokenTree::Punct(_));
        let (mut t, mut m) = self.trees.remove(i);
        let mismatch = !punct && is_c != tree_c;
        let r = {
            let t = &mut t;
            self.call(op, move || {
                if op.c % 2 == 0 {
                    t.set_span(s)
                } else {
                    match t {
                        TokenTree::Group(t) => t.set_span(s),
                        TokenTree::Ident(t) => t.set_span(s),
                        TokenTree::Punct(t) => t.set_span(s),
                        TokenTree::Literal(t) => t.set_span(s),
                    }
                }
            })
        };
        let o = match r {
            Ok(()) => {
                if mismatch {
                    violation("mode", "compiler and fallback values were mixed without complaint");
                }
                m.set_span(ms);
                0
            }
            Err(Caught::Other(_)) if mismatch => {
                probe(P_MISMATCH);
                1
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        };
        self.checker(op.s, "after set_span").tree(&t, &m);
        self.trees.push((t, m));
        o
    }

    // --- spans ---------------------------------------------------------------

    fn op_span(&mut self, op: &Op) -> u64 {
        // A span from somewhere inside a stream, or a fresh call-site one.
        if op.c % 9 == 8 {
            let m = match op.b % 3 {
                1 if self.comp() => MSpan::Comp(3),
                #[cfg(feature = "exempt")]
                2 if self.comp() => MSpan::Comp(1),
                _ => self.call_span(),
            };
            match self.call(op, || match op.b % 3 {
                1 => Span::mixed_site(),
                #[cfg(feature = "exempt")]
                2 => Span::def_site(),
                _ => Span::call_site(),
            }) {
                Ok(s) => {
                    self.checker(op.s, "fresh span").span(s, &m);
                    self.add_span(s, m)
                }
                Err(c) => {
                    self.injected(op, c);
                }
            }
            return 0;
        }
        if op.c % 9 == 7 && !self.trees.is_empty() {
            let i = op.a as usize % self.trees.len();
            let (t, m) = &self.trees[i];
            let (s, m) = (t.span(), m.span().clone());
            self.add_span(s, m);
            return 0;
        }
        let Some(i) = self.pick_stream(op.a) else { return 9 };
        let mut real = self.streams[i].real.clone();
        let mut m = self.streams[i].m.clone();
        let mut x = op.s;
        loop {
            if m.is_empty() {
                return 9;
            }
            let k = (x % m.len() as u64) as usize;
            x = mix(x);
            let Some(t) = real.into_iter().nth(k) else { violation("token", "iterator shorter than the stream") };
            let mt = m[k].clone();
            if let (TokenTree::Group(g), MTok::Group { toks, open, close, span, .. }) = (&t, &mt) {
                match x % 6 {
                    0 => {
                        self.add_span(g.span_open(), open.clone());
                        return 0;
                    }
                    1 => {
                        self.add_span(g.span_close(), close.clone());
                        return 0;
                    }
                    2 => {
                        let d = g.delim_span();
                        self.add_span(d.join(), span.clone());
                        self.add_span(d.open(), open.clone());
                        self.add_span(d.close(), close.clone());
                        return 0;
                    }
                    3 | 4 if !toks.is_empty() => {
                        real = g.stream();
                        m = toks.clone();
                        continue;
                    }
                    _ => {}
                }
            }
            self.add_span(t.span(), mt.span().clone());
            return 0;
        }
    }

    fn stale(&self, m: &MSpan) -> bool {
        match m {
            MSpan::File { file, .. } => self.files[*file as usize - 1].epoch != self.epoch,
            MSpan::Any => true,
            _ => false,
        }
    }

    fn op_join(&mut self, op: &Op) -> u64 {
        if self.spans.is_empty() {
            return 9;
        }
        let (a, ma) = self.spans[op.a as usize % self.spans.len()].clone();
        let (b, mb) = self.spans[op.b as usize % self.spans.len()].clone();
        if self.stale(&ma) || self.stale(&mb) {
            return 9;
        }
        let want: Option<MSpan> = match (&ma, &mb) {
            (MSpan::Comp(_x), MSpan::Comp(_y)) => {
                #[cfg(feature = "bridge")]
                {
                    if PMSPAN {
                        server::m_join(*_x, *_y).map(MSpan::Comp)
                    } else {
                        None
                    }
                }
                #[cfg(not(feature = "bridge"))]
                None
            }
            (MSpan::Comp(_), _) | (_, MSpan::Comp(_)) => None,
            _ if !SPANS => Some(MSpan::Call),
            (MSpan::Call, MSpan::Call) => Some(MSpan::Call),
            (MSpan::File { file: f, lo: l1, hi: h1 }, MSpan::File { file: g, lo: l2, hi: h2 }) if f == g => {
                Some(MSpan::File { file: *f, lo: *l1.min(l2), hi: *h1.max(h2) })
            }
            _ => None,
        };
        match self.call(&no_oom(op), || a.join(b)) {
            Ok(got) => {
                eval();
                match (got, want) {
                    (None, None) => {
                        probe(P_JOIN_NONE);
                        0
                    }
                    (Some(s), Some(m)) => {
                        probe(P_JOIN_SOME);
                        self.checker(op.s, "joined span").span(s, &m);
                        self.add_span(s, m);
                        0
                    }
                    (got, want) => violation("span", &format!("join gave {:?}, expected {:?} from {:?} and {:?}", got.is_some(), want, ma, mb)),
                }
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_subspan(&mut self, op: &Op) -> u64 {
        let ls: Vec<usize> = (0..self.trees.len()).filter(|&i| matches!(self.trees[i].0, TokenTree::Literal(_))).collect();
        if ls.is_empty() {
            return 9;
        }
        let i = ls[op.a as usize % ls.len()];
        let m = self.trees[i].1.span().clone();
        if self.stale(&m) {
            return 9;
        }
        let TokenTree::Literal(l) = &self.trees[i].0 else { return 9 };
        let len = match &m {
            MSpan::File { file, lo, hi } => {
                let t = &self.files[*file as usize - 1].text;
                let b = locate(t, *lo, *hi).bytes;
                b.1 - b.0
            }
            _ => 0,
        };
        let mut r = Rng::new(op.s);
        let pick = |r: &mut Rng| match r.below(12) {
            0 => usize::MAX,
            1 => u32::MAX as usize,
            2 => len + 1,
            3 => len,
            _ => r.below(len + 2),
        };
        let mk = |r: &mut Rng, v: usize| match r.below(5) {
            0 => Bound::Unbounded,
            1 => Bound::Excluded(v),
            _ => Bound::Included(v),
        };
        let (x, y) = (pick(&mut r), pick(&mut r));
        let sb = mk(&mut r, x);
        let eb = match r.below(4) {
            0 => Bound::Unbounded,
            1 => Bound::Included(y),
            _ => Bound::Excluded(y),
        };
        let want: Option<MSpan> = match &m {
            MSpan::Comp(_x) => {
                #[cfg(feature = "bridge")]
                {
                    if PMSPAN {
                        server::m_subspan(*_x, sb, eb).map(MSpan::Comp)
                    } else {
                        None
                    }
                }
                #[cfg(not(feature = "bridge"))]
                None
            }
            _ if !SPANS => None,
            MSpan::Any => return 9,
            other => {
                let s = match sb {
                    Bound::Included(v) => Some(v),
                    Bound::Excluded(v) => v.checked_add(1),
                    Bound::Unbounded => Some(0),
                };
                let e = match eb {
                    Bound::Included(v) => v.checked_add(1),
                    Bound::Excluded(v) => Some(v),
                    Bound::Unbounded => Some(len),
                };
                match (s, e) {
                    (Some(s), Some(e)) if s <= e && e <= len => match other {
                        MSpan::File { file, lo, hi } => {
                            let t = &self.files[*file as usize - 1].text;
                            let b = locate(t, *lo, *hi).bytes;
                            let src = &t[b.0..b.1];
                            if !src.is_char_boundary(s) || !src.is_char_boundary(e) {
                                return 9; // bytes inside a character: unspecified
                            }
                            let clo = lo + src[..s].chars().count() as u32;
                            Some(MSpan::File { file: *file, lo: clo, hi: clo + src[s..e].chars().count() as u32 })
                        }
                        _ => Some(MSpan::Call),
                    },
                    _ => None,
                }
            }
        };
        match self.call(&no_oom(op), || l.subspan((sb, eb))) {
            Ok(got) => {
                eval();
                match (got, want) {
                    (None, None) => {
                        probe(P_SUBSPAN_NONE);
                        0
                    }
                    (Some(s), Some(m)) => {
                        probe(P_SUBSPAN_SOME);
                        self.checker(op.s, "subspan").span(s, &m);
                        self.add_span(s, m);
                        0
                    }
                    (got, want) => violation(
                        "span",
                        &format!("subspan({:?}, {:?}) of a literal of {} bytes gave {:?}, expected {:?}", sb, eb, len, got.is_some(), want),
                    ),
                }
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_at(&mut self, op: &Op) -> u64 {
        if self.spans.is_empty() {
            return 9;
        }
        let (a, ma) = self.spans[op.a as usize % self.spans.len()].clone();
        let (b, mb) = self.spans[op.b as usize % self.spans.len()].clone();
        let ca = matches!(ma, MSpan::Comp(_));
        let cb = matches!(mb, MSpan::Comp(_));
        let resolved = op.c % 2 == 0;
        let r = self.call(op, || if resolved { a.resolved_at(b) } else { a.located_at(b) });
        match r {
            Ok(s) => {
                if ca != cb {
                    violation("mode", "compiler and fallback values were mixed without complaint");
                }
                let m = match (&ma, &mb) {
                    (MSpan::Comp(_x), MSpan::Comp(_y)) => {
                        #[cfg(feature = "bridge")]
                        {
                            // located_at is resolved_at the other way round
                            MSpan::Comp(if resolved { server::m_resolved_at(*_x, *_y) } else { server::m_resolved_at(*_y, *_x) })
                        }
                        #[cfg(not(feature = "bridge"))]
                        MSpan::Any
                    }
                    _ => {
                        if resolved {
                            ma
                        } else {
                            mb
                        }
                    }
                };
                self.checker(op.s, "resolved/located span").span(s, &m);
                self.add_span(s, m);
                0
            }
            Err(Caught::Other(_)) if ca != cb => {
                probe(P_MISMATCH);
                1
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    // --- formatting ------------------------------------------------------------

    fn op_fmt(&mut self, op: &Op) -> u64 {
        let debug = op.b % 2 == 1;
        let alternate = op.b % 4 >= 2;
        let bare = op.b % 8 >= 4;
        enum V {
            S(TokenStream),
            T(TokenTree),
            I(proc_macro2::token_stream::IntoIter),
            E(Rc<proc_macro2::LexError>),
            P(Span),
        }
        let (v, m, comp) = match op.c % 8 {
            6 if !self.errors.is_empty() => {
                probe(P_FMT_ERROR);
                (V::E(self.errors[op.a as usize % self.errors.len()].clone()), vec![], false)
            }
            7 if !self.spans.is_empty() && debug => {
                (V::P(self.spans[op.a as usize % self.spans.len()].0), vec![], false)
            }
            0 if !self.trees.is_empty() => {
                let (t, m) = &self.trees[op.a as usize % self.trees.len()];
                (V::T(t.clone()), vec![m.clone()], has_comp_kind(m))
            }
            1 if !self.iters.is_empty() && debug => {
                let i = &self.iters[op.a as usize % self.iters.len()];
                (V::I(i.real.clone()), i.m[i.at..].to_vec(), i.comp)
            }
            _ => {
                let Some(i) = self.pick_stream(op.a) else { return 9 };
                let s = &self.streams[i];
                (V::S(s.real.clone()), s.m.to_vec(), s.comp)
            }
        };
        let write = |f: &mut dyn std::fmt::Write, v: &V| -> std::fmt::Result {
            match (v, debug, alternate) {
                (V::S(x), false, false) => write!(f, "{}", x),
                (V::S(x), false, true) => write!(f, "{:#}", x),
                (V::S(x), true, false) => write!(f, "{:?}", x),
                (V::S(x), true, true) => write!(f, "{:#?}", x),
                (V::T(TokenTree::Group(x)), false, false) if bare => write!(f, "{}", x),
                (V::T(TokenTree::Group(x)), true, false) if bare => write!(f, "{:?}", x),
                (V::T(TokenTree::Ident(x)), false, false) if bare => write!(f, "{}", x),
                (V::T(TokenTree::Ident(x)), true, false) if bare => write!(f, "{:?}", x),
                (V::T(TokenTree::Literal(x)), false, false) if bare => write!(f, "{}", x),
                (V::T(TokenTree::Literal(x)), true, false) if bare => write!(f, "{:?}", x),
                (V::T(TokenTree::Punct(x)), false, false) if bare => write!(f, "{}", x),
                (V::T(TokenTree::Punct(x)), true, false) if bare => write!(f, "{:?}", x),
                (V::T(x), false, false) => write!(f, "{}", x),
                (V::T(x), false, true) => write!(f, "{:#}", x),
                (V::T(x), true, false) => write!(f, "{:?}", x),
                (V::T(x), true, true) => write!(f, "{:#?}", x),
                (V::E(x), false, false) => write!(f, "{}", x),
                (V::E(x), false, true) => write!(f, "{:#}", x),
                (V::E(x), true, false) => write!(f, "{:?}", x),
                (V::E(x), true, true) => write!(f, "{:#?}", x),
                (V::P(x), _, false) => write!(f, "{:?}", x),
                (V::P(x), _, true) => write!(f, "{:#?}", x),
                (V::I(x), _, false) => write!(f, "{:?}", x),
                (V::I(x), _, true) => write!(f, "{:#?}", x),
            }
        };
        // Undisturbed text first.
        let mut whole = String::new();
        if write(&mut whole, &v).is_err() {
            violation("sink", "formatting into a string failed");
        }
        if whole.is_empty() {
            probe(P_EMPTY_RESULT);
        }
        shared::observe(self.tid, whole.as_bytes());
        eval();
        if matches!(v, V::E(_) | V::P(_)) {
            // What an error or a span prints is not specified.
        } else if !debug {
            let got: String = whole.chars().filter(|c| !c.is_whitespace()).collect();
            let want = flat(&m);
            if got != want {
                violation("text", &format!("a value prints as {:?} but consists of {:?}", trunc(&got), trunc(&want)));
            }
        } else if let Some(x) = named(&m, &mut whole.as_str()) {
            violation("text", &format!("{:?} is missing from the debug output {:?}", x, trunc(&whole)));
        }
        let (action, hold) = match &v {
            V::S(ts) => self.reenter(op, F_SINK_REENTER, ts, &Rc::new(m.clone()), comp),
            _ => (None, Rc::new(RefCell::new(None))),
        };
        let mut sink = Sink {
            got: String::with_capacity(whole.len()),
            calls: 0,
            err_at: op.fault(F_SINK_ERR).unwrap_or(0),
            panic_at: op.fault(F_SINK_PANIC).unwrap_or(0),
            reenter_at: op.fault(F_SINK_REENTER).map_or(0, |v| 1 + (v >> 8)),
            failed: false,
            after_fail: 0,
            action,
        };
        let r = {
            let (s, v) = (&mut sink, &v);
            self.call(op, move || write(s, v))
        };
        eval();
        if !whole.starts_with(&sink.got) {
            violation("sink", &format!("a sink received {:?}, which is not the start of {:?}", sink.got, whole));
        }
        let o = match r {
            Ok(Ok(())) => {
                if sink.failed {
                    violation("sink", "an error of the sink was swallowed and formatting reported success");
                }
                if sink.got != whole {
                    violation("sink", &format!("a sink received only {:?} of {:?} without an error", sink.got, whole));
                }
                0
            }
            Ok(Err(_)) => {
                if !sink.failed {
                    violation("sink", "formatting failed although the sink did not");
                }
                probe(P_SINK_PREFIX);
                if sink.after_fail > 0 {
                    violation("sink", "formatting went on writing after the sink failed");
                }
                2
            }
            Err(c) => {
                self.injected(op, c);
                probe(P_SINK_PREFIX);
                1
            }
        };
        // The value is unharmed.
        match &v {
            V::S(x) => self.checker(op.s, "after formatting").stream_v(x, &m),
            V::T(x) => self.checker(op.s, "after formatting").tree(x, &m[0]),
            V::I(x) => self.checker(op.s, "after formatting").iter(x.clone(), &m),
            V::E(_) | V::P(_) => {}
        }
        let mut again = String::new();
        let _ = write(&mut again, &v);
        if again != whole {
            violation("sink", "the same value prints differently after an interrupted write");
        }
        drop(sink.action.take());
        self.settle_alias(op, hold, comp);
        o
    }

    // --- invalidation, misuse ----------------------------------------------------

    fn op_invalidate(&mut self, op: &Op) -> u64 {
        #[cfg(feature = "spans")]
        {
            let comp = self.comp();
            let r = self.call(&no_oom(op), proc_macro2::extra::invalidate_current_thread_spans);
            match r {
                Ok(()) => {
                    if comp {
                        violation("mode", "invalidation inside a macro did not panic");
                    }
                    shared::fired(F_INVALIDATE);
                    self.epoch += 1;
            EPOCH.with(|e| e.set(e.get() + 1));
                    if op.a % 3 == 0 {
                        self.check_all(op.s, "after invalidation");
                    }
                    0
                }
                Err(Caught::Other(_)) if comp => {
                    shared::fired(F_MISUSE);
                    1
                }
                Err(c) => self.unexpected(op, &c),
            }
        }
        #[cfg(not(feature = "spans"))]
        {
            let _ = op;
            9
        }
    }

    fn op_stale(&mut self, op: &Op) -> u64 {
        #[cfg(feature = "spans")]
        {
            let st: Vec<usize> = (0..self.spans.len()).filter(|&i| self.stale(&self.spans[i].1)).collect();
            if st.is_empty() {
                return 9;
            }
            let s = self.spans[st[op.a as usize % st.len()]].0;
            let o = self.spans[op.b as usize % self.spans.len()].0;
            shared::fired(F_STALE);
            let q = op.s % 7;
            let r = self.call(&no_oom(op), move || match q {
                0 => drop(s.byte_range()),
                1 => drop(s.start()),
                2 => drop(s.end()),
                3 => drop(s.source_text()),
                4 => drop(s.file()),
                5 => drop(s.join(o)),
                _ => drop(o.join(s)),
            });
            match r {
                Ok(()) => 0,
                Err(Caught::Other(_)) => {
                    probe(P_STALE_PANIC);
                    1
                }
                Err(c) => {
                    self.injected(op, c);
                    1
                }
            }
        }
        #[cfg(not(feature = "spans"))]
        {
            let _ = op;
            9
        }
    }

    fn op_misuse(&mut self, op: &Op) -> u64 {
        shared::fired(F_MISUSE);
        let k = op.a % 8;
        let comp = self.comp();
        let r = self.call(&no_oom(op), || match k {
            0 => drop(Ident::new("", Span::call_site())),
            1 => drop(Ident::new("1x", Span::call_site())),
            2 => drop(Punct::new('a', Spacing::Alone)),
            3 => drop(Ident::new_raw("self", Span::call_site())),
            4 => drop(Literal::f64_unsuffixed(f64::NAN)),
            5 => drop(Literal::f32_suffixed(f32::INFINITY)),
            6 => drop(Ident::new("a b", Span::call_site())),
            _ => {
                #[cfg(feature = "pm")]
                if !comp {
                    let _ = Span::call_site().unwrap();
                }
                drop(Ident::new("7", Span::call_site()))
            }
        });
        match r {
            // The simulated compiler checks identifiers more loosely.
            Ok(()) if comp => 0,
            Ok(()) => violation("misuse", "a misuse that must panic did not"),
            Err(Caught::Other(_)) => 1,
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_ident_cmp(&mut self, op: &Op) -> u64 {
        let ids: Vec<usize> = (0..self.trees.len()).filter(|&i| matches!(self.trees[i].0, TokenTree::Ident(_))).collect();
        if ids.is_empty() {
            return 9;
        }
        let (i, j) = (ids[op.a as usize % ids.len()], ids[op.b as usize % ids.len()]);
        let (TokenTree::Ident(x), TokenTree::Ident(y)) = (&self.trees[i].0, &self.trees[j].0) else { return 9 };
        let (mx, my) = (self.trees[i].1.clone(), self.trees[j].1.clone());
        let mismatch = has_comp_kind(&mx) != has_comp_kind(&my);
        let (MTok::Ident { text: tx, .. }, MTok::Ident { text: ty, .. }) = (&mx, &my) else { return 9 };
        match self.call(op, || x == y) {
            Ok(b) => {
                if b != (tx == ty) {
                    violation("token", &format!("`{}` == `{}` is {}", tx, ty, b));
                }
                if x.cmp(y) != tx.cmp(ty) || x.partial_cmp(y) != Some(tx.cmp(ty)) {
                    violation("token", "identifier ordering changed");
                }
                let h = |i: &Ident| {
                    use std::hash::{DefaultHasher, Hash, Hasher};
                    let mut h = DefaultHasher::new();
                    i.hash(&mut h);
                    h.finish()
                };
                if tx == ty && h(x) != h(y) {
                    violation("token", "equal identifiers hash differently");
                }
                if *x != **tx || (*x == **ty) != b {
                    violation("token", "identifier compared with a string disagrees with its text");
                }
                0
            }
            Err(Caught::Other(_)) if mismatch => {
                probe(P_MISMATCH);
                1
            }
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_observe(&mut self, op: &Op) -> u64 {
        let before = self.mode;
        let want = self.mode();
        let got = crate::history::observe(op.a);
        eval();
        if got != (want == Mode::Compiler) {
            violation(
                "mode",
                &format!(
                    "the {} implementation is in use; expected the {} one (inside macro: {}, known before: {:?})",
                    if got { "compiler's" } else { "fallback" },
                    if want == Mode::Compiler { "compiler's" } else { "fallback" },
                    self.inside,
                    before
                ),
            );
        }
        got as u64
    }

    fn op_convert(&mut self, op: &Op) -> u64 {
        #[cfg(feature = "bridge")]
        {
            if !self.inside {
                return 9;
            }
            let Some(i) = self.pick_stream(op.a) else { return 9 };
            if self.streams[i].comp {
                // To the compiler's type and back: nothing may change.
                let ts = self.streams[i].real.clone();
                let m = self.streams[i].m.clone();
                match self.call(op, move || TokenStream::from(proc_macro::TokenStream::from(ts))) {
                    Ok(ts) => {
                        self.checker(op.s, "through the compiler's type").stream(&ts, &m);
                        let j = self.add_stream(ts, vec![], true);
                        self.streams[j].m = m;
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            } else {
                // A fallback stream becomes a compiler stream by way of text.
                let s = &self.streams[i];
                if !s.pristine || has_comp(&s.m) || has_none_group(&s.m) {
                    return 9;
                }
                probe(P_CONVERT);
                let ts = s.real.clone();
                let m = recolor(&s.m, &MSpan::Comp(2));
                // The compiler is taken as knowing how to read the text.
                let text = ts.to_string();
                server::teach(&text, &m);
                let op2 = Op { f: op.f.iter().copied().filter(|f| matches!(f.0, F_STEP | F_SHARED)).collect(), ..op.clone() };
                match self.call(&op2, move || TokenStream::from(proc_macro::TokenStream::from(ts))) {
                    Ok(ts) => {
                        self.checker(op.s, "fallback stream given to the compiler").stream_v(&ts, &m);
                        self.add_stream(ts, m, true);
                        0
                    }
                    Err(c) => {
                        self.injected(op, c);
                        1
                    }
                }
            }
        }
        #[cfg(not(feature = "bridge"))]
        {
            let _ = op;
            9
        }
    }

    // --- depth, teardown, memory ---------------------------------------------------

    fn op_deep(&mut self, op: &Op) -> u64 {
        if self.comp() {
            return 9;
        }
        let depth = 1000 + (op.s % 60_000) as usize;
        probe(P_DEEP);
        shared::fired(F_STACK);
        let open = ["(", "{", "["][op.a as usize % 3];
        let close = [")", "}", "]"][op.a as usize % 3];
        // Tokens before and after the group, on every level.
        let mut r = Rng::new(op.s ^ 0xdee9);
        let (pre, post) = match r.below(4) {
            0 => (0, 0),
            1 => (0, r.range(1, 8)),
            2 => (r.range(1, 8), 0),
            _ => (r.range(1, 4), r.range(1, 4)),
        };
        let depth = if pre + post > 0 { (depth / 2).clamp(1000, 16_000) } else { depth };
        let side = |n: usize| ["a", ";", "1", "()", "b", ",", "[x]", "'c'"][..n].join(" ");
        let (before, after) = (side(pre), side(post));
        // The nested group comes after any small ones on its level.
        let nth = before.matches(['(', '[']).count();
        let fill = |ts: &mut TokenStream, n: usize| {
            for i in 0..n {
                if i % 3 == 2 {
                    ts.extend(Some(TokenTree::Ident(Ident::new("x", Span::call_site()))));
                } else {
                    ts.extend(Some(TokenTree::Punct(Punct::new(';', Spacing::Alone))));
                }
            }
        };
        let wrap = |d: Delimiter, inner: TokenStream| {
            let mut ts = TokenStream::new();
            fill(&mut ts, pre);
            ts.extend(Some(TokenTree::Group(Group::new(d, inner))));
            fill(&mut ts, post);
            ts
        };
        let nest = |inner: &str| {
            let mut s = String::with_capacity(depth * (2 + before.len() + after.len()) + 8);
            for _ in 0..depth {
                s.push_str(&before);
                s.push_str(open);
            }
            s.push_str(inner);
            for _ in 0..depth {
                s.push_str(close);
                s.push_str(&after);
            }
            s
        };
        let w_op = no_oom(op);
        let r = self.call(&w_op, || {
            let count_from = |ts: &TokenStream, nth: usize| -> usize {
                // Walk down without recursion.
                let mut cur = ts.clone();
                let mut n = 0;
                loop {
                    let it = cur.clone().into_iter();
                    match it.filter(|t| matches!(t, TokenTree::Group(_))).nth(nth) {
                        Some(TokenTree::Group(g)) => {
                            n += 1;
                            cur = g.stream();
                        }
                        _ => return n,
                    }
                }
            };
            let count_down = |ts: &TokenStream| count_from(ts, nth);
            match op.b % 7 {
                0 => {
                    let text = nest("x");
                    let ts: TokenStream = text.parse().ok()?;
                    let n = count_down(&ts);
                    drop(ts);
                    Some(n)
                }
                1 => {
                    // Unclosed and mismatched: error paths also free deep state.
                    let mut text = nest("x");
                    text.truncate(text.len() - after.len() - 1 - op.c as usize % (depth - 1));
                    let r = text.parse::<TokenStream>();
                    if r.is_ok() {
                        violation("accept", "a deep text with delimiters missing was accepted");
                    }
                    Some(depth)
                }
                2 => {
                    let mut ts = TokenStream::new();
                    for _ in 0..depth {
                        ts = wrap(delim_to((op.a % 4) as u8), ts);
                    }
                    let c = ts.clone();
                    drop(ts);
                    let n = count_from(&c, 0);
                    drop(c);
                    Some(n)
                }
                3 => {
                    // Shared in the middle: two owners of the deep half.
                    let mut ts = TokenStream::new();
                    let mut mid = None;
                    for i in 0..depth {
                        ts = wrap(Delimiter::Brace, ts);
                        if i == depth / 2 {
                            mid = Some(ts.clone());
                        }
                    }
                    let n = count_from(&ts, 0);
                    drop(ts);
                    let mid = mid.unwrap();
                    if count_from(&mid, 0) != depth / 2 + 1 {
                        violation("token", "dropping one owner of a deep stream damaged the other");
                    }
                    drop(mid);
                    Some(n)
                }
                4 => {
                    // Via a partly consumed iterator.
                    let text = nest("x y");
                    let ts: TokenStream = format!("a {} b", text).parse().ok()?;
                    let mut it = ts.into_iter();
                    let g = it.by_ref().filter(|t| matches!(t, TokenTree::Group(_))).nth(nth);
                    let n = match &g {
                        Some(TokenTree::Group(g)) => 1 + count_down(&g.stream()),
                        _ => 0,
                    };
                    drop(it);
                    drop(g);
                    Some(n)
                }
                5 => {
                    // Many siblings at many levels.
                    let mut ts = TokenStream::new();
                    for i in 0..depth {
                        let g = TokenTree::Group(Group::new(Delimiter::Parenthesis, ts));
                        ts = TokenStream::from(g.clone());
                        if i % 97 == 0 {
                            ts.extend([TokenTree::Punct(Punct::new(';', Spacing::Alone)), g]);
                        }
                    }
                    let n = count_from(&ts, 0);
                    drop(ts);
                    Some(n)
                }
                _ => {
                    // Deep block comment and a deep literal nest.
                    let mut s = String::new();
                    for _ in 0..depth {
                        s.push_str("/* ");
                    }
                    for _ in 0..depth {
                        s.push_str("*/ ");
                    }
                    s.push_str(&nest("1"));
                    let ts: TokenStream = s.parse().ok()?;
                    Some(count_down(&ts))
                }
            }
        });
        match r {
            Ok(Some(n)) if n == depth => 0,
            Ok(Some(n)) => violation("token", &format!("nesting of {} levels came back as {}", depth, n)),
            Ok(None) => violation("reject", "a deeply nested text was rejected"),
            Err(c) => {
                self.injected(op, c);
                1
            }
        }
    }

    fn op_stash(&mut self, op: &Op) -> u64 {
        if self.inside {
            return 9;
        }
        let what = (op.s % 251) as u8;
        let item = match op.b % 8 {
            4 if !self.spans.is_empty() => {
                let (sp, m) = &self.spans[op.a as usize % self.spans.len()];
                let at = match *m {
                    MSpan::File { file, lo, hi } if !self.stale(m) => Some((self.files[file as usize - 1].text.clone(), lo, hi)),
                    _ => None,
                };
                Stashed::Span(*sp, at, EPOCH.with(|e| e.get()))
            }
            5 => {
                let mut r = Rng::new(op.s);
                let size = r.below(12);
                let sh = Shape::plain(&mut r, size);
                let g = text::valid(&mut r, sh, u32::MAX);
                if op.c % 4 == 0 {
                    Stashed::Parse(format!("{}\n) x", g.text), None)
                } else {
                    Stashed::Parse(g.text, Some(g.toks))
                }
            }
            6 if op.c % 3 == 0 => Stashed::Invalidate,
            0 if !self.trees.is_empty() => {
                let i = op.a as usize % self.trees.len();
                let (t, m) = self.trees.remove(i);
                Stashed::Tree(t, m)
            }
            1 if !self.iters.is_empty() => {
                let i = op.a as usize % self.iters.len();
                let it = self.iters.remove(i);
                let m = it.m[it.at..].to_vec();
                let mut v = Vec::new();
                for t in m {
                    push_tok(&mut v, t, false);
                }
                Stashed::Iter(it.real, v)
            }
            2 => {
                // Touch the stash only: decides who is destroyed first.
                STASH.with(|s| s.borrow_mut().0.reserve(1));
                return 0;
            }
            _ => {
                let Some(i) = self.pick_stream(op.a) else {
                    STASH.with(|s| s.borrow_mut().0.reserve(1));
                    return 9;
                };
                let s = if op.c % 2 == 0 {
                    self.streams.remove(i)
                } else {
                    let s = &self.streams[i];
                    St { real: s.real.clone(), m: s.m.clone(), comp: s.comp, pristine: false, shared: true }
                };
                Stashed::Stream(s.real, s.m)
            }
        };
        STASH.with(|s| s.borrow_mut().0.push((what, item)));
        0
    }

    fn op_release(&mut self, op: &Op) -> u64 {
        // Parse many texts, invalidate, and see the memory come back.
        #[cfg(feature = "spans")]
        {
            if self.comp() || self.multi {
                return 9;
            }
            let quiet = Op::new(K_RELEASE);
            let n = 20 + (op.s % 200) as usize;
            let text = {
                let mut s = String::from("x /* ");
                for i in 0..(op.a % 4000) {
                    s.push(if i % 61 == 0 { '\n' } else { 'ö' });
                }
                s.push_str(" */ y");
                s
            };
            let probe_spans = op.b % 2 == 0;
            // The table itself may keep its capacity; the texts must go, also
            // if it is a single one, which is then too large to pass for a table.
            let allowed = 512 * (n as i64 + 8) + 8192;
            let (big, at) = match op.b / 2 % 4 {
                0 => (String::new(), usize::MAX),
                1 => (format!("x /* {} */", "ü-".repeat(allowed as usize / 2)), 0),
                2 => (format!("x /* {} */", "ü-".repeat(allowed as usize / 2)), n - 1),
                _ => (format!("x /* {} */", "ü-".repeat(allowed as usize / 2)), op.c as usize % n),
            };
            let _ = self.call(&quiet, proc_macro2::extra::invalidate_current_thread_spans);
            self.epoch += 1;
            EPOCH.with(|e| e.set(e.get() + 1));
            let before = alloc::live().1;
            let r = self.call(&quiet, || {
                for i in 0..n {
                    let text = if i == at { &big } else { &text };
                    let ts: TokenStream = text.parse().unwrap_or_else(|_| violation("reject", "valid source was rejected"));
                    if probe_spans {
                        for t in ts {
                            let _ = (t.span().byte_range(), t.span().source_text());
                        }
                    }
                }
            });
            if let Err(c) = r {
                self.unexpected(op, &c);
            }
            let held = alloc::live().1 - before;
            let r = self.call(&quiet, proc_macro2::extra::invalidate_current_thread_spans);
            if let Err(c) = r {
                self.unexpected(op, &c);
            }
            self.epoch += 1;
            EPOCH.with(|e| e.set(e.get() + 1));
            shared::fired(F_INVALIDATE);
            let kept = alloc::live().1 - before;
            eval();
            if kept > allowed {
                violation(
                    "release",
                    &format!("{} texts of {} bytes: {} bytes held, {} still held after invalidation", n, text.len(), held, kept),
                );
            }
            0
        }
        #[cfg(not(feature = "spans"))]
        {
            let _ = op;
            9
        }
    }

    fn op_marathon(&mut self, op: &Op) -> u64 {
        #[cfg(feature = "spans")]
        {
            if self.comp() {
                return 9;
            }
            // Far more than 2^32 bytes of source on one thread.
            let mut big = String::with_capacity(66 << 20);
            big.push_str("a ");
            let line = "                                                              \n";
            while big.len() < (64 << 20) {
                big.push_str(line);
            }
            let lines = big.matches('\n').count();
            big.push_str("zz");
            let rounds = 66 + op.a as usize % 4;
            let quiet = Op::new(K_MARATHON);
            for k in 0..rounds {
                let b = &big;
                let r = self.call(&quiet, || {
                    proc_macro2::extra::invalidate_current_thread_spans();
                    b.parse::<TokenStream>()
                });
                self.epoch += 1;
            EPOCH.with(|e| e.set(e.get() + 1));
                shared::fired(F_INVALIDATE);
                let ts = match r {
                    Ok(Ok(ts)) => ts,
                    Ok(Err(_)) => violation("reject", "valid source was rejected"),
                    Err(c) => self.unexpected(op, &c),
                };
                if k % 8 == 7 || k + 1 == rounds {
                    let Some(t) = ts.into_iter().last() else { violation("token", "no tokens") };
                    let (s, e) = (t.span().start(), t.span().byte_range());
                    eval();
                    if s.line != lines + 1 || s.column != 0 || e.start != big.len() - 2 || t.span().source_text().as_deref() != Some("zz") {
                        violation("span", &format!("after {} invalidations: {}:{} bytes {:?}", k, s.line, s.column, e));
                    }
                }
            }
            let _ = self.call(&quiet, proc_macro2::extra::invalidate_current_thread_spans);
            self.epoch += 1;
            EPOCH.with(|e| e.set(e.get() + 1));
            0
        }
        #[cfg(not(feature = "spans"))]
        {
            let _ = op;
            9
        }
    }
}

/// Is this token itself one of the compiler's?
pub fn has_comp_kind(m: &MTok) -> bool {
    m.is_compiler()
}

fn no_oom(op: &Op) -> Op {
    Op { f: op.f.iter().copied().filter(|f| f.0 != F_OOM).collect(), ..op.clone() }
}

pub fn proc_macro2_force() {
    proc_macro2::fallback::force()
}
pub fn proc_macro2_unforce() {
    proc_macro2::fallback::unforce()
}

