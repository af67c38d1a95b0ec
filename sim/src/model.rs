//! Reference model: what a token stream, a token and a span are, with nothing
//! clever inside.

use std::rc::Rc;

/// Delimiters in the model: 0 paren, 1 brace, 2 bracket, 3 none.
pub type MDelim = u8;

#[derive(Clone, Debug, PartialEq)]
pub enum MSpan {
    /// The span that refers to no source.
    Call,
    /// Characters lo..hi of the given source text.
    File { file: u32, lo: u32, hi: u32 },
    /// A span of the (simulated) compiler.
    Comp(u32),
    /// Nothing is guaranteed about this span.
    Any,
}

#[derive(Clone, Debug)]
pub enum MTok {
    Group { delim: MDelim, toks: Rc<Vec<MTok>>, span: MSpan, open: MSpan, close: MSpan },
    Ident { text: Rc<str>, span: MSpan },
    Punct { ch: char, joint: bool, span: MSpan },
    Lit { repr: Rc<str>, span: MSpan },
}

impl MTok {
    pub fn span(&self) -> &MSpan {
        match self {
            MTok::Group { span, .. } | MTok::Ident { span, .. } | MTok::Punct { span, .. } | MTok::Lit { span, .. } => span,
        }
    }
    pub fn set_span(&mut self, s: MSpan) {
        match self {
            MTok::Group { span, open, close, .. } => {
                *open = first(&s);
                *close = last(&s);
                *span = s;
            }
            MTok::Ident { span, .. } | MTok::Punct { span, .. } | MTok::Lit { span, .. } => *span = s,
        }
    }
    pub fn is_compiler(&self) -> bool {
        matches!(self.span(), MSpan::Comp(_))
    }
}

pub fn first(s: &MSpan) -> MSpan {
    match *s {
        MSpan::File { file, lo, hi } => MSpan::File { file, lo, hi: hi.min(lo + 1) },
        ref o => o.clone(),
    }
}
pub fn last(s: &MSpan) -> MSpan {
    match *s {
        MSpan::File { file, lo, hi } => MSpan::File { file, lo: lo.max(hi.saturating_sub(1)), hi },
        ref o => o.clone(),
    }
}

/// How a token lands in a stream: a negative number becomes `-` and a number
/// (except that a fallback stream keeps a compiler token as it is).
pub fn push_tok(v: &mut Vec<MTok>, t: MTok, target_compiler: bool) {
    if let MTok::Lit { repr, span } = &t {
        if let Some(rest) = repr.strip_prefix('-') {
            if target_compiler || !t.is_compiler() {
                v.push(MTok::Punct { ch: '-', joint: false, span: span.clone() });
                v.push(MTok::Lit { repr: rest.into(), span: span.clone() });
                return;
            }
        }
    }
    v.push(t);
}

/// Tokens at all levels, but stop counting at `limit`.
pub fn weight(toks: &[MTok], limit: usize) -> usize {
    let mut n = 0;
    let mut stack = vec![toks];
    while let Some(t) = stack.pop() {
        n += t.len();
        if n >= limit {
            return limit;
        }
        for t in t {
            if let MTok::Group { toks, .. } = t {
                stack.push(toks);
            }
        }
    }
    n
}

/// A source text as parsed: id is unique in the run, epoch counts
/// invalidations on the thread.
pub struct MFile {
    pub id: u32,
    pub epoch: u32,
    pub text: Rc<str>,
    /// Character count.
    pub chars: u32,
    /// What `file()` said the first time it was asked.
    pub name: std::cell::RefCell<Option<String>>,
    /// For large texts: byte, line and column of every character.
    pub index: std::cell::OnceCell<Vec<(u32, u32, u32)>>,
}

impl MFile {
    pub fn locate(&self, lo: u32, hi: u32) -> Loc {
        if self.chars < 2000 || hi > self.chars {
            return locate(&self.text, lo, hi);
        }
        let v = self.index.get_or_init(|| {
            let (mut line, mut col) = (1, 0);
            let mut v = Vec::with_capacity(self.chars as usize + 1);
            for (b, c) in self.text.char_indices() {
                v.push((b as u32, line, col));
                if c == '\n' {
                    line += 1;
                    col = 0;
                } else {
                    col += 1;
                }
            }
            v.push((self.text.len() as u32, line, col));
            v
        });
        let (a, b) = (v[lo as usize], v[hi as usize]);
        Loc {
            bytes: (a.0 as usize, b.0 as usize),
            start: (a.1 as usize, a.2 as usize),
            end: (b.1 as usize, b.2 as usize),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Loc {
    pub bytes: (usize, usize),
    pub start: (usize, usize),
    pub end: (usize, usize),
}

pub fn locate(text: &str, lo: u32, hi: u32) -> Loc {
    let (mut line, mut col) = (1usize, 0usize);
    let mut r = Loc { bytes: (text.len(), text.len()), start: (0, 0), end: (0, 0) };
    let mut i = 0u32;
    let mut it = text.char_indices();
    loop {
        let n = it.next();
        let b = n.map_or(text.len(), |(b, _)| b);
        if i == lo {
            r.bytes.0 = b;
            r.start = (line, col);
        }
        if i == hi {
            r.bytes.1 = b;
            r.end = (line, col);
            return r;
        }
        match n {
            None => return r,
            Some((_, '\n')) => {
                line += 1;
                col = 0;
            }
            Some(_) => col += 1,
        }
        i += 1;
    }
}

pub fn show(toks: &[MTok]) -> String {
    let mut s = String::new();
    let mut budget = 60;
    show_into(toks, &mut s, &mut budget, 0);
    s
}
fn show_into(toks: &[MTok], s: &mut String, budget: &mut i32, depth: usize) {
    for t in toks {
        *budget -= 1;
        if *budget < 0 || depth > 20 {
            s.push('…');
            return;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        match t {
            MTok::Group { delim, toks, .. } => {
                s.push_str(["(", "{", "[", "«"][*delim as usize]);
                show_into(toks, s, budget, depth + 1);
                s.push_str([" )", " }", " ]", " »"][*delim as usize]);
            }
            MTok::Ident { text, .. } => s.push_str(text),
            MTok::Punct { ch, joint, .. } => {
                s.push(*ch);
                if *joint {
                    s.push('~');
                }
            }
            MTok::Lit { repr, .. } => s.push_str(repr),
        }
    }
}

/// The text a value prints as, without any white space: how tokens are spaced
/// is the printer's business.
pub fn flat(toks: &[MTok]) -> String {
    let mut s = String::new();
    flat_into(toks, &mut s);
    s.retain(|c| !c.is_whitespace());
    s
}
fn flat_into(toks: &[MTok], s: &mut String) {
    for t in toks {
        match t {
            MTok::Group { delim, toks, .. } => {
                s.push_str(["(", "{", "[", ""][*delim as usize]);
                flat_into(toks, s);
                s.push_str([")", "}", "]", ""][*delim as usize]);
            }
            MTok::Ident { text, .. } => s.push_str(text),
            MTok::Punct { ch, .. } => s.push(*ch),
            MTok::Lit { repr, .. } => s.push_str(repr),
        }
    }
}

/// Do the names in the value (and what `lits` says of its literals) occur in
/// the text in order?  Returns one that does not.
pub fn named<'a>(toks: &'a [MTok], text: &mut &str) -> Option<&'a str> {
    for t in toks {
        let name: &str = match t {
            MTok::Group { toks, .. } => {
                if let Some(x) = named(toks, text) {
                    return Some(x);
                }
                continue;
            }
            MTok::Ident { text, .. } => text,
            _ => continue,
        };
        match text.find(name) {
            Some(i) => *text = &text[i + name.len()..],
            None => return Some(name),
        }
    }
    None
}
