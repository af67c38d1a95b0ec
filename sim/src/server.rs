//! The simulated compiler: a server on the far side of the real `proc_macro`
//! bridge.  It is a stub written for the simulation (rustc itself is not
//! running); everything between it and the crate under test is the real
//! `proc_macro` client library.

use crate::model::*;
use crate::plan::*;
use crate::rng::{hash_str, mix};
use crate::{alloc, sched, shared};
use proc_macro::bridge::{self, client, server, DelimSpan, IdentKind, LitKind};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::{Bound, Range};
use std::rc::Rc;

pub const DEF: u32 = 1;
pub const CALL: u32 = 2;
pub const MIXED: u32 = 3;
pub const RPC_FAULT: &str = "sim: injected compiler panic";

#[derive(Clone, Debug)]
pub enum STok {
    Group { delim: MDelim, toks: Rc<Vec<STok>>, open: u32, close: u32, entire: u32 },
    Punct { ch: char, joint: bool, span: u32 },
    Ident { sym: String, raw: bool, span: u32 },
    Lit { kind: LitKind, sym: String, suffix: Option<String>, span: u32 },
}

/// A server-side token stream handle; live handles are counted.
pub struct SStream(pub Rc<Vec<STok>>);
impl SStream {
    fn new(v: Vec<STok>) -> SStream {
        LIVE.with(|l| l.set(l.get() + 1));
        SStream(Rc::new(v))
    }
}
impl Default for SStream {
    fn default() -> SStream {
        SStream::new(Vec::new())
    }
}
impl Clone for SStream {
    fn clone(&self) -> SStream {
        LIVE.with(|l| l.set(l.get() + 1));
        SStream(self.0.clone())
    }
}
impl Drop for SStream {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

#[derive(Default)]
struct State {
    keys: BTreeMap<(u8, u64, u64), u32>,
    list: Vec<(u8, u64, u64)>,
    /// Source texts that reached the compiler's lexers.
    lexed: Vec<String>,
    texts: Vec<(String, Vec<STok>)>,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    static RPC_AT: Cell<u32> = const { Cell::new(0) };
    static RPC_N: Cell<u32> = const { Cell::new(0) };
    static RPC_FIRED: Cell<bool> = const { Cell::new(false) };
    /// 0 none, 1 next lex fails, 2 next lex panics
    static LEX_FAULT: Cell<u32> = const { Cell::new(0) };
    pub static LEX_FIRED: Cell<bool> = const { Cell::new(false) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
}

// --- spans: pure functions of how they were made ---------------------------

pub fn intern(kind: u8, a: u64, b: u64) -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.list.is_empty() {
            // 0 unused, then the three globals.
            s.list.extend([(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0)]);
        }
        if let Some(&i) = s.keys.get(&(kind, a, b)) {
            return i;
        }
        let i = s.list.len() as u32;
        s.list.push((kind, a, b));
        s.keys.insert((kind, a, b), i);
        i
    })
}
fn h(id: u32) -> u64 {
    let k = match id {
        0..=3 => (id as u8, 0, 0),
        _ => ST.with(|s| s.borrow().list.get(id as usize).copied().unwrap_or((0, 0, 0))),
    };
    mix(k.0 as u64 ^ k.1.wrapping_mul(0x9e37) ^ k.2.wrapping_mul(0x79b97))
}
pub fn fresh_span(n: u64) -> u32 {
    intern(10, n, 0)
}
pub fn m_join(a: u32, b: u32) -> Option<u32> {
    if mix(h(a) ^ h(b)) % 3 == 0 {
        None
    } else {
        Some(intern(11, a as u64, b as u64))
    }
}
/// Where a span lies and how names resolve at it: a span as first made has both
/// from itself.
fn parts(id: u32) -> (u32, u32) {
    match ST.with(|s| s.borrow().list.get(id as usize).copied()) {
        Some((12, a, b)) => (a as u32, b as u32),
        _ => (id, id),
    }
}
pub fn m_resolved_at(a: u32, b: u32) -> u32 {
    let (place, names) = (parts(a).0, parts(b).1);
    if place == names {
        place
    } else {
        intern(12, place as u64, names as u64)
    }
}
fn bound(b: Bound<usize>) -> u64 {
    match b {
        Bound::Included(x) => 1 + ((x as u64) << 2),
        Bound::Excluded(x) => 2 + ((x as u64) << 2),
        Bound::Unbounded => 3,
    }
}
pub fn m_subspan(a: u32, s: Bound<usize>, e: Bound<usize>) -> Option<u32> {
    let k = mix(bound(s) ^ mix(bound(e)));
    if k % 3 == 0 {
        None
    } else {
        Some(intern(13, a as u64, k))
    }
}
pub fn m_start(a: u32) -> u32 {
    intern(14, a as u64, 0)
}
pub fn m_end(a: u32) -> u32 {
    intern(15, a as u64, 0)
}
pub fn m_line(a: u32) -> usize {
    1 + (h(a) % 5000) as usize
}
pub fn m_column(a: u32) -> usize {
    (h(a) >> 17) as usize % 200
}
pub fn m_bytes(a: u32) -> Range<usize> {
    let lo = (h(a) >> 20) as usize % 100_000;
    lo..lo + (h(a) >> 40) as usize % 64
}
pub fn m_file(a: u32) -> String {
    format!("src/f{}.rs", h(a) % 7)
}
pub fn m_local_file(a: u32) -> Option<String> {
    (h(a) % 5 != 0).then(|| format!("/w/src/f{}.rs", h(a) % 7))
}
pub fn m_source_text(a: u32) -> Option<String> {
    (h(a) % 4 != 0).then(|| format!("text{}", h(a) % 1000))
}
pub fn m_debug(a: u32) -> String {
    format!("sim#{}", a)
}

// --- fault plumbing ---------------------------------------------------------

pub fn arm(op: &Op) {
    RPC_AT.with(|c| c.set(op.fault(F_RPC).unwrap_or(0)));
    RPC_N.with(|c| c.set(0));
    RPC_FIRED.with(|c| c.set(false));
    LEX_FIRED.with(|c| c.set(false));
    LEX_FAULT.with(|c| {
        c.set(if op.fault(F_LEX_ERR).is_some() {
            1
        } else if op.fault(F_LEX_PANIC).is_some() {
            2
        } else {
            0
        })
    });
}
pub fn disarm() {
    RPC_AT.with(|c| c.set(0));
    LEX_FAULT.with(|c| c.set(0));
}
pub fn rpc_fired() -> bool {
    RPC_FIRED.with(|c| c.get())
}
pub fn lexed_reset() {
    let _u = alloc::untracked();
    ST.with(|s| s.borrow_mut().lexed.clear());
}
pub fn lexed(text: &str) -> usize {
    ST.with(|s| s.borrow().lexed.iter().filter(|t| *t == text).count())
}
pub fn lexed_any() -> usize {
    ST.with(|s| s.borrow().lexed.len())
}
/// The compiler's lexer is taken as given: tell it what this text means.
pub fn teach(text: &str, toks: &[MTok]) {
    let v = from_model(toks, true);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.texts.len() >= 4 {
            s.texts.remove(0);
        }
        s.texts.push((text.to_owned(), v));
    });
}
pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default());
}

struct Serving(alloc::Armed);
fn rpc(fallible: bool) -> Serving {
    let a = alloc::ARMED.with(|a| a.get());
    alloc::ARMED.with(|c| c.set(alloc::Armed { active: false, ..a }));
    CALLS.with(|c| c.set(c.get() + 1));
    let g = Serving(a);
    if fallible && !std::thread::panicking() {
        let n = RPC_N.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        sched::yield_point(sched::Y_RPC, false);
        if RPC_AT.with(|c| c.get()) == n {
            RPC_AT.with(|c| c.set(0));
            RPC_FIRED.with(|c| c.set(true));
            shared::fired(F_RPC);
            sched::step_end();
            std::panic::resume_unwind(Box::new(RPC_FAULT));
        }
    }
    g
}
impl Drop for Serving {
    fn drop(&mut self) {
        let now = alloc::ARMED.with(|a| a.get());
        alloc::ARMED.with(|c| c.set(alloc::Armed { active: self.0.active, ..now }));
    }
}

// --- model <-> server tokens -------------------------------------------------

pub fn lit_repr(kind: LitKind, sym: &str, suffix: Option<&str>) -> String {
    let hashes = |n: u8| "#".repeat(n as usize);
    let body = match kind {
        LitKind::Byte => format!("b'{sym}'"),
        LitKind::Char => format!("'{sym}'"),
        LitKind::Integer | LitKind::Float | LitKind::ErrWithGuar => sym.to_owned(),
        LitKind::Str => format!("\"{sym}\""),
        LitKind::StrRaw(n) => format!("r{0}\"{sym}\"{0}", hashes(n)),
        LitKind::ByteStr => format!("b\"{sym}\""),
        LitKind::ByteStrRaw(n) => format!("br{0}\"{sym}\"{0}", hashes(n)),
        LitKind::CStr => format!("c\"{sym}\""),
        LitKind::CStrRaw(n) => format!("cr{0}\"{sym}\"{0}", hashes(n)),
    };
    body + suffix.unwrap_or("")
}

pub fn to_model(toks: &[STok]) -> Vec<MTok> {
    toks.iter()
        .map(|t| match t {
            STok::Group { delim, toks, open, close, entire } => MTok::Group {
                delim: *delim,
                toks: Rc::new(to_model(toks)),
                span: MSpan::Comp(*entire),
                open: MSpan::Comp(*open),
                close: MSpan::Comp(*close),
            },
            STok::Punct { ch, joint, span } => MTok::Punct { ch: *ch, joint: *joint, span: MSpan::Comp(*span) },
            STok::Ident { sym, raw, span } => MTok::Ident {
                text: if *raw { format!("r#{sym}").into() } else { sym.as_str().into() },
                span: MSpan::Comp(*span),
            },
            STok::Lit { kind, sym, suffix, span } => {
                MTok::Lit { repr: lit_repr(*kind, sym, suffix.as_deref()).into(), span: MSpan::Comp(*span) }
            }
        })
        .collect()
}

/// Model tokens as the compiler would hold them.  `call`: every span becomes
/// call_site (text lexed by the compiler); otherwise fresh spans.
pub fn from_model(toks: &[MTok], call: bool) -> Vec<STok> {
    fn go(toks: &[MTok], call: bool, n: &mut u64, seed: u64) -> Vec<STok> {
        let sp = |n: &mut u64| {
            if call {
                return CALL;
            }
            *n += 1;
            fresh_span(seed ^ *n)
        };
        toks.iter()
            .map(|t| match t {
                MTok::Group { delim, toks, .. } => {
                    let (open, close, entire) = (sp(n), sp(n), sp(n));
                    STok::Group { delim: *delim, toks: Rc::new(go(toks, call, n, seed)), open, close, entire }
                }
                MTok::Punct { ch, joint, .. } => STok::Punct { ch: *ch, joint: *joint, span: sp(n) },
                MTok::Ident { text, .. } => match text.strip_prefix("r#") {
                    Some(s) => STok::Ident { sym: s.to_owned(), raw: true, span: sp(n) },
                    None => STok::Ident { sym: text.to_string(), raw: false, span: sp(n) },
                },
                MTok::Lit { repr, .. } => {
                    let (kind, sym, suffix) = split_literal(repr);
                    STok::Lit { kind, sym, suffix, span: sp(n) }
                }
            })
            .collect()
    }
    let mut n = 0;
    let seed = if call { 0 } else { ST.with(|s| s.borrow().list.len() as u64) << 20 };
    go(toks, call, &mut n, seed)
}

/// Spelling of a valid literal -> kind, symbol, suffix.
pub fn split_literal(repr: &str) -> (LitKind, String, Option<String>) {
    let opt = |s: &str| if s.is_empty() { None } else { Some(s.to_owned()) };
    let quoted = |pre: usize, q: char, kind: LitKind| {
        let body = &repr[pre..];
        let mut esc = false;
        let mut end = body.len();
        for (i, c) in body.char_indices().skip(1) {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == q {
                end = i;
                break;
            }
        }
        (kind, body[1..end].to_owned(), opt(body.get(end + 1..).unwrap_or("")))
    };
    let raw = |pre: usize, mk: fn(u8) -> LitKind| {
        let body = &repr[pre..];
        let n = body.bytes().take_while(|&b| b == b'#').count();
        let close = format!("\"{}", "#".repeat(n));
        let inner = &body[n + 1..];
        let end = inner.find(&close).unwrap_or(inner.len());
        (mk(n as u8), inner[..end].to_owned(), opt(inner.get(end + close.len()..).unwrap_or("")))
    };
    let b = repr.as_bytes();
    match (b.first(), b.get(1), b.get(2)) {
        (Some(b'\''), ..) => {
            // 'x' where x may be a quote only if escaped; a bare quote char is
            // the first character.
            quoted(0, '\'', LitKind::Char)
        }
        (Some(b'"'), ..) => quoted(0, '"', LitKind::Str),
        (Some(b'b'), Some(b'\''), _) => quoted(1, '\'', LitKind::Byte),
        (Some(b'b'), Some(b'"'), _) => quoted(1, '"', LitKind::ByteStr),
        (Some(b'c'), Some(b'"'), _) => quoted(1, '"', LitKind::CStr),
        (Some(b'r'), Some(b'"' | b'#'), _) => raw(1, LitKind::StrRaw),
        (Some(b'b'), Some(b'r'), Some(b'"' | b'#')) => raw(2, LitKind::ByteStrRaw),
        (Some(b'c'), Some(b'r'), Some(b'"' | b'#')) => raw(2, LitKind::CStrRaw),
        _ => {
            let (neg, d) = match repr.strip_prefix('-') {
                Some(r) => ("-", r),
                None => ("", repr),
            };
            let c: Vec<char> = d.chars().collect();
            let (radix, mut i) = match (c.first(), c.get(1)) {
                (Some('0'), Some('x')) => (16, 2),
                (Some('0'), Some('o')) => (8, 2),
                (Some('0'), Some('b')) => (2, 2),
                _ => (10, 0),
            };
            let mut float = false;
            while i < c.len() && (c[i] == '_' || c[i].is_digit(radix)) {
                i += 1;
            }
            if radix == 10 {
                if i < c.len() && c[i] == '.' {
                    float = true;
                    i += 1;
                    while i < c.len() && (c[i] == '_' || c[i].is_ascii_digit()) {
                        i += 1;
                    }
                }
                if i < c.len() && matches!(c[i], 'e' | 'E') {
                    let mut j = i + 1;
                    if j < c.len() && matches!(c[j], '+' | '-') {
                        j += 1;
                    }
                    while j < c.len() && c[j] == '_' {
                        j += 1;
                    }
                    if j < c.len() && c[j].is_ascii_digit() {
                        while j < c.len() && (c[j] == '_' || c[j].is_ascii_digit()) {
                            j += 1;
                        }
                        float = true;
                        i = j;
                    }
                }
            }
            let num: String = c[..i].iter().collect();
            let suf: String = c[i..].iter().collect();
            let kind = if float { LitKind::Float } else { LitKind::Integer };
            (kind, format!("{neg}{num}"), opt(&suf))
        }
    }
}

// --- a small lexer for text the compiler was not taught ----------------------

const PUNCT: &str = "~!@#$%^&*-=+|;:,<.>/?'";

pub fn lex(text: &str) -> Result<Vec<STok>, String> {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut stack: Vec<(MDelim, Vec<STok>)> = Vec::new();
    let mut cur: Vec<STok> = Vec::new();
    let mut i = 0;
    let ident_end = |mut j: usize| {
        while j < c.len() && unicode_ident::is_xid_continue(c[j]) {
            j += 1;
        }
        j
    };
    let is_start = |ch: char| ch == '_' || unicode_ident::is_xid_start(ch);
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() || ch == '\u{200e}' || ch == '\u{200f}' {
            i += 1;
            continue;
        }
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && at(i + 1) == '*' {
            let mut d = 0;
            loop {
                if i >= c.len() {
                    return Err("unterminated comment".into());
                }
                if at(i) == '/' && at(i + 1) == '*' {
                    d += 1;
                    i += 2;
                } else if at(i) == '*' && at(i + 1) == '/' {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        }
        if let Some(d) = "({[".find(ch) {
            stack.push((d as u8, std::mem::take(&mut cur)));
            i += 1;
            continue;
        }
        if let Some(d) = ")}]".find(ch) {
            match stack.pop() {
                Some((o, outer)) if o == d as u8 => {
                    let toks = std::mem::replace(&mut cur, outer);
                    cur.push(STok::Group { delim: o, toks: Rc::new(toks), open: CALL, close: CALL, entire: CALL });
                }
                _ => return Err("unbalanced delimiter".into()),
            }
            i += 1;
            continue;
        }
        // Literals.
        let lit_end = literal_end(&c, i)?;
        if let Some(mut j) = lit_end {
            if j < c.len() && is_start(c[j]) {
                j = ident_end(j);
            }
            let repr: String = c[i..j].iter().collect();
            let (kind, sym, suffix) = split_literal(&repr);
            cur.push(STok::Lit { kind, sym, suffix, span: CALL });
            i = j;
            continue;
        }
        if ch == 'r' && at(i + 1) == '#' && is_start(at(i + 2)) {
            let j = ident_end(i + 2);
            cur.push(STok::Ident { sym: c[i + 2..j].iter().collect(), raw: true, span: CALL });
            i = j;
            continue;
        }
        if is_start(ch) {
            let j = ident_end(i);
            cur.push(STok::Ident { sym: c[i..j].iter().collect(), raw: false, span: CALL });
            i = j;
            continue;
        }
        if PUNCT.contains(ch) {
            let joint = ch == '\'' || (PUNCT.contains(at(i + 1)) && i + 1 < c.len() && !(at(i + 1) == '/' && matches!(at(i + 2), '/' | '*')));
            cur.push(STok::Punct { ch, joint, span: CALL });
            i += 1;
            continue;
        }
        return Err(format!("unknown character {ch:?}"));
    }
    if !stack.is_empty() {
        return Err("unclosed delimiter".into());
    }
    Ok(cur)
}

fn literal_end(c: &[char], i: usize) -> Result<Option<usize>, String> {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let cooked = |mut j: usize, q: char| -> Result<Option<usize>, String> {
        while j < c.len() {
            match c[j] {
                '\\' => j += 2,
                x if x == q => return Ok(Some(j + 1)),
                _ => j += 1,
            }
        }
        Err("unterminated literal".into())
    };
    let raw = |mut j: usize| -> Result<Option<usize>, String> {
        let mut n = 0;
        while at(j) == '#' {
            n += 1;
            j += 1;
        }
        if at(j) != '"' {
            return Ok(None);
        }
        j += 1;
        while j < c.len() {
            if c[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#') {
                return Ok(Some(j + 1 + n));
            }
            j += 1;
        }
        Err("unterminated raw literal".into())
    };
    match (at(i), at(i + 1), at(i + 2)) {
        ('"', ..) => cooked(i + 1, '"'),
        ('b' | 'c', '"', _) => cooked(i + 2, '"'),
        ('b', '\'', _) => {
            if at(i + 2) == '\\' {
                cooked(i + 2, '\'')
            } else if at(i + 3) == '\'' {
                Ok(Some(i + 4))
            } else {
                Err("bad byte".into())
            }
        }
        ('r', '"', _) | ('r', '#', '"' | '#') => raw(i + 1),
        ('b' | 'c', 'r', '"' | '#') => raw(i + 2),
        ('\'', '\\', _) => cooked(i + 1, '\''),
        ('\'', _, '\'') => Ok(Some(i + 3)),
        (d, ..) if d.is_ascii_digit() => {
            let mut j = i;
            let radix = match (d, at(i + 1)) {
                ('0', 'x') => 16,
                ('0', 'o') => 8,
                ('0', 'b') => 2,
                _ => 10,
            };
            if radix != 10 {
                j += 2;
            }
            while j < c.len() && (c[j] == '_' || c[j].is_digit(radix)) {
                j += 1;
            }
            if radix == 10 {
                if at(j) == '.' && at(j + 1) != '.' && !(at(j + 1) == '_' || unicode_ident::is_xid_start(at(j + 1))) {
                    j += 1;
                    while j < c.len() && (c[j] == '_' || c[j].is_ascii_digit()) {
                        j += 1;
                    }
                }
                if matches!(at(j), 'e' | 'E') {
                    let mut k = j + 1;
                    if matches!(at(k), '+' | '-') {
                        k += 1;
                    }
                    while at(k) == '_' {
                        k += 1;
                    }
                    if at(k).is_ascii_digit() {
                        while k < c.len() && (c[k] == '_' || c[k].is_ascii_digit()) {
                            k += 1;
                        }
                        j = k;
                    }
                }
            }
            Ok(Some(j))
        }
        _ => Ok(None),
    }
}

fn render(toks: &[STok], out: &mut String) {
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && !matches!(toks[i - 1], STok::Punct { joint: true, .. }) {
            out.push(' ');
        }
        match t {
            STok::Group { delim, toks, .. } => {
                out.push_str(["(", "{ ", "[", ""][*delim as usize]);
                render(toks, out);
                out.push_str([")", " }", "]", ""][*delim as usize]);
            }
            STok::Punct { ch, .. } => out.push(*ch),
            STok::Ident { sym, raw, .. } => {
                if *raw {
                    out.push_str("r#");
                }
                out.push_str(sym);
            }
            STok::Lit { kind, sym, suffix, .. } => out.push_str(&lit_repr(*kind, sym, suffix.as_deref())),
        }
    }
}
pub fn render_model(toks: &[MTok]) -> String {
    let mut s = String::new();
    render(&from_model(toks, true), &mut s);
    s
}

type BTree = bridge::TokenTree<SStream, SpanId, String>;

#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct SpanId(u32);

fn delim_out(d: MDelim) -> proc_macro::Delimiter {
    match d {
        0 => proc_macro::Delimiter::Parenthesis,
        1 => proc_macro::Delimiter::Brace,
        2 => proc_macro::Delimiter::Bracket,
        _ => proc_macro::Delimiter::None,
    }
}
fn delim_in(d: proc_macro::Delimiter) -> MDelim {
    match d {
        proc_macro::Delimiter::Parenthesis => 0,
        proc_macro::Delimiter::Brace => 1,
        proc_macro::Delimiter::Bracket => 2,
        proc_macro::Delimiter::None => 3,
    }
}
fn tree_out(t: &STok) -> BTree {
    match t {
        STok::Group { delim, toks, open, close, entire } => bridge::TokenTree::Group(bridge::Group {
            delimiter: delim_out(*delim),
            stream: if toks.is_empty() && entire % 2 == 0 { None } else { Some(SStream::new(toks.to_vec())) },
            span: DelimSpan { open: SpanId(*open), close: SpanId(*close), entire: SpanId(*entire) },
        }),
        STok::Punct { ch, joint, span } => {
            bridge::TokenTree::Punct(bridge::Punct { ch: *ch as u8, joint: *joint, span: SpanId(*span) })
        }
        STok::Ident { sym, raw, span } => bridge::TokenTree::Ident(bridge::Ident {
            sym: sym.clone(),
            kind: if *raw { IdentKind::Raw } else { IdentKind::Normal },
            span: SpanId(*span),
        }),
        STok::Lit { kind, sym, suffix, span } => bridge::TokenTree::Literal(bridge::Literal {
            kind: *kind,
            symbol: sym.clone(),
            suffix: suffix.clone(),
            span: SpanId(*span),
        }),
    }
}
fn tree_in(t: BTree, out: &mut Vec<STok>) {
    match t {
        bridge::TokenTree::Group(g) => out.push(STok::Group {
            delim: delim_in(g.delimiter),
            toks: g.stream.map(|s| s.0.clone()).unwrap_or_default(),
            open: g.span.open.0,
            close: g.span.close.0,
            entire: g.span.entire.0,
        }),
        bridge::TokenTree::Punct(p) => out.push(STok::Punct { ch: p.ch as char, joint: p.joint, span: p.span.0 }),
        bridge::TokenTree::Ident(i) => {
            out.push(STok::Ident { sym: i.sym, raw: i.kind == IdentKind::Raw, span: i.span.0 })
        }
        bridge::TokenTree::Literal(l) => {
            let mut sym = l.symbol;
            // Like rustc: a negative number is two tokens.
            if matches!(l.kind, LitKind::Integer | LitKind::Float) && sym.starts_with('-') {
                sym.remove(0);
                out.push(STok::Punct { ch: '-', joint: false, span: l.span.0 });
            }
            out.push(STok::Lit { kind: l.kind, sym, suffix: l.suffix, span: l.span.0 })
        }
    }
}

pub struct Sv;

fn lex_source(src: &str) -> Result<Vec<STok>, String> {
    ST.with(|s| s.borrow_mut().lexed.push(src.to_owned()));
    match LEX_FAULT.with(|c| c.replace(0)) {
        1 => {
            LEX_FIRED.with(|c| c.set(true));
            shared::fired(F_LEX_ERR);
            return Err("sim: injected lex error".into());
        }
        2 => {
            LEX_FIRED.with(|c| c.set(true));
            shared::fired(F_LEX_PANIC);
            sched::step_end();
            std::panic::resume_unwind(Box::new(RPC_FAULT));
        }
        _ => {}
    }
    let known = ST.with(|s| s.borrow().texts.iter().rev().find(|t| t.0 == src).map(|t| t.1.clone()));
    match known {
        Some(v) => Ok(v),
        None => lex(src),
    }
}

impl server::Server for Sv {
    type TokenStream = SStream;
    type Span = SpanId;
    type Symbol = String;

    fn globals(&mut self) -> bridge::ExpnGlobals<SpanId> {
        bridge::ExpnGlobals { def_site: SpanId(DEF), call_site: SpanId(CALL), mixed_site: SpanId(MIXED) }
    }
    fn intern_symbol(ident: &str) -> String {
        ident.to_owned()
    }
    fn with_symbol_string(symbol: &String, f: impl FnOnce(&str)) {
        f(symbol)
    }
    fn track_env_var(&mut self, _: &str, _: Option<&str>) {}
    fn track_path(&mut self, _: &str) {}
    fn literal_from_str(&mut self, s: &str) -> Result<bridge::Literal<SpanId, String>, String> {
        let _g = rpc(true);
        let body = s.strip_prefix('-').unwrap_or(s);
        let toks = lex_source(s).or_else(|e| if s.starts_with('-') && !LEX_FIRED.with(|c| c.get()) { lex(body) } else { Err(e) })?;
        match toks.last() {
            Some(STok::Lit { .. }) if toks.len() <= 2 => {
                let (kind, symbol, suffix) = split_literal(s);
                Ok(bridge::Literal { kind, symbol, suffix, span: SpanId(CALL) })
            }
            _ => Err("not a literal".into()),
        }
    }
    fn emit_diagnostic(&mut self, _: bridge::Diagnostic<SpanId>) {}

    fn ts_drop(&mut self, stream: SStream) {
        let _g = rpc(false);
        drop(stream);
    }
    fn ts_clone(&mut self, stream: &SStream) -> SStream {
        let _g = rpc(true);
        stream.clone()
    }
    fn ts_is_empty(&mut self, stream: &SStream) -> bool {
        let _g = rpc(true);
        stream.0.is_empty()
    }
    fn ts_expand_expr(&mut self, _: &SStream) -> Result<SStream, ()> {
        Err(())
    }
    fn ts_from_str(&mut self, src: &str) -> Result<SStream, String> {
        let _g = rpc(true);
        lex_source(src).map(SStream::new)
    }
    fn ts_to_string(&mut self, stream: &SStream) -> String {
        let _g = rpc(true);
        let mut s = String::new();
        render(&stream.0, &mut s);
        s
    }
    fn ts_from_token_tree(&mut self, tree: BTree) -> SStream {
        let _g = rpc(true);
        let mut v = Vec::new();
        tree_in(tree, &mut v);
        SStream::new(v)
    }
    fn ts_concat_trees(&mut self, base: Option<SStream>, trees: Vec<BTree>) -> SStream {
        let _g = rpc(true);
        let mut v = base.map(|b| b.0.to_vec()).unwrap_or_default();
        for t in trees {
            tree_in(t, &mut v);
        }
        SStream::new(v)
    }
    fn ts_concat_streams(&mut self, base: Option<SStream>, streams: Vec<SStream>) -> SStream {
        let _g = rpc(true);
        let mut v = base.map(|b| b.0.to_vec()).unwrap_or_default();
        for s in streams {
            v.extend(s.0.iter().cloned());
        }
        SStream::new(v)
    }
    fn ts_into_trees(&mut self, stream: SStream) -> Vec<BTree> {
        let _g = rpc(true);
        stream.0.iter().map(tree_out).collect()
    }

    fn span_debug(&mut self, s: SpanId) -> String {
        let _g = rpc(true);
        m_debug(s.0)
    }
    fn span_parent(&mut self, _: SpanId) -> Option<SpanId> {
        None
    }
    fn span_source(&mut self, s: SpanId) -> SpanId {
        s
    }
    fn span_byte_range(&mut self, s: SpanId) -> Range<usize> {
        let _g = rpc(true);
        m_bytes(s.0)
    }
    fn span_start(&mut self, s: SpanId) -> SpanId {
        let _g = rpc(true);
        SpanId(m_start(s.0))
    }
    fn span_end(&mut self, s: SpanId) -> SpanId {
        let _g = rpc(true);
        SpanId(m_end(s.0))
    }
    fn span_line(&mut self, s: SpanId) -> usize {
        let _g = rpc(true);
        m_line(s.0)
    }
    fn span_column(&mut self, s: SpanId) -> usize {
        let _g = rpc(true);
        m_column(s.0)
    }
    fn span_file(&mut self, s: SpanId) -> String {
        let _g = rpc(true);
        m_file(s.0)
    }
    fn span_local_file(&mut self, s: SpanId) -> Option<String> {
        let _g = rpc(true);
        m_local_file(s.0)
    }
    fn span_join(&mut self, a: SpanId, b: SpanId) -> Option<SpanId> {
        let _g = rpc(true);
        m_join(a.0, b.0).map(SpanId)
    }
    fn span_subspan(&mut self, a: SpanId, s: Bound<usize>, e: Bound<usize>) -> Option<SpanId> {
        let _g = rpc(true);
        m_subspan(a.0, s, e).map(SpanId)
    }
    fn span_resolved_at(&mut self, a: SpanId, at: SpanId) -> SpanId {
        let _g = rpc(true);
        SpanId(m_resolved_at(a.0, at.0))
    }
    fn span_source_text(&mut self, s: SpanId) -> Option<String> {
        let _g = rpc(true);
        m_source_text(s.0)
    }
    fn span_save_span(&mut self, _: SpanId) -> usize {
        0
    }
    fn span_recover_proc_macro_span(&mut self, _: usize) -> SpanId {
        SpanId(CALL)
    }
    fn symbol_normalize_and_validate_ident(&mut self, s: &str) -> Result<String, ()> {
        let _g = rpc(true);
        let mut it = s.chars();
        let ok = it.next().is_some_and(|c| c == '_' || unicode_ident::is_xid_start(c)) && it.all(unicode_ident::is_xid_continue);
        if ok {
            Ok(s.to_owned())
        } else {
            Err(())
        }
    }
}

type Body = Box<dyn FnOnce(proc_macro::TokenStream) -> proc_macro::TokenStream>;
thread_local! {
    static BODY: RefCell<Option<Body>> = const { RefCell::new(None) };
}

/// Run `body` inside a macro expansion whose input is `input`.  Returns what
/// the compiler received, or the panic message.
pub fn expand(
    input: Vec<STok>,
    body: impl FnOnce(proc_macro::TokenStream) -> proc_macro::TokenStream,
) -> Result<Vec<STok>, String> {
    let b: Box<dyn FnOnce(proc_macro::TokenStream) -> proc_macro::TokenStream + '_> = Box::new(body);
    // The body runs to completion inside run1 below.
    let b: Body = unsafe { std::mem::transmute(b) };
    BODY.with(|c| *c.borrow_mut() = Some(b));
    let cl = client::Client::expand1(|ts| {
        let b = BODY.with(|c| c.borrow_mut().take()).unwrap();
        b(ts)
    });
    match cl.run1(&server::SAME_THREAD, Sv, SStream::new(input), false) {
        Ok(s) => Ok(s.0.to_vec()),
        Err(m) => Err(m.as_str().unwrap_or("panic").to_owned()),
    }
}

pub fn seed_spans(seed: u64) -> u64 {
    hash_str("spans") ^ seed
}
