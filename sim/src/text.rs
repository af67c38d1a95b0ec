//! Source texts whose tokens, and the position of every token, are known by
//! construction; texts that are wrong at a known place; and torn or corrupted
//! copies of either.

use crate::model::*;
use crate::rng::Rng;
use std::rc::Rc;

pub struct Cut {
    pub byte: usize,
    pub depth: usize,
    /// Top-level tokens complete at this point.
    pub ntop: usize,
}

pub struct Gen {
    pub text: String,
    pub toks: Vec<MTok>,
    pub cuts: Vec<Cut>,
}

pub struct Bad {
    pub text: String,
    /// Character offset of the offending place.
    pub at: u32,
    pub why: &'static str,
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// Rough number of tokens.
    pub size: usize,
    pub max_depth: usize,
    pub unicode: bool,
    pub comments: bool,
    pub docs: bool,
    pub bom: bool,
    /// Literals whose source spelling the compiler also uses.
    pub plain: bool,
    /// Something very long in the text: what, and how long.
    pub huge: Option<(u8, u32)>,
}

impl Shape {
    pub fn random(r: &mut Rng, size: usize) -> Shape {
        Shape {
            size,
            max_depth: r.range(1, 6),
            unicode: r.chance(2, 3),
            comments: r.chance(2, 3),
            docs: r.chance(1, 2),
            bom: r.chance(1, 12),
            plain: false,
            huge: None,
        }
    }
    pub fn plain(r: &mut Rng, size: usize) -> Shape {
        Shape { plain: true, ..Shape::random(r, size) }
    }
}

const PUNCTS: &[char] = &[
    '~', '!', '@', '#', '$', '%', '^', '&', '*', '-', '=', '+', '|', ';', ':', ',', '<', '.', '>', '/', '?',
];
const IDENTS: &[&str] = &[
    "x", "foo", "fn", "self", "Self", "_", "_x1", "struct", "a", "b", "c", "r", "br", "cr", "e1", "u8", "let", "mut",
    "super", "crate", "union", "true", "a_rather_long_identifier_that_goes_on_for_more_than_64_characters",
];
const UIDENTS: &[&str] = &["α", "über", "数据", "ñandú", "длинное_имя_переменной_не_влезает", "Ⅷ", "переменная", "ℵ0"];
const RIDENTS: &[&str] = &["r#type", "r#fn", "r#x", "r#match", "r#_a", "r#another_long_raw_identifier"];
const LIFETIMES: &[&str] = &["a", "static", "_", "de", "b"];
const ULIFETIMES: &[&str] = &["α", "长"];
const NUMS: &[&str] = &[
    "0", "1", "42", "1_000", "7u8", "0xFF", "0xdead_beefu32", "0b0101", "0o17", "1.5", "2e10", "1.0e-3", "3.25f32",
    "9f64", "1_0.0_1", "0xEf", "5usize", "1E+5", "12e_3", "340282366920938463463374607431768211455u128",
];
const LITS: &[&str] = &[
    "'a'", "'\\n'", "'\\''", "'\"'", "'\\u{41}'", "'\\\\'", "b'a'", "b'\\xFF'", "b'\\''", "b'\"'", "\"abc\"", "\"\"",
    "\"a\\\"b\"", "\"tab\\tnl\\n\"", "\"\\u{1F600}\"", "b\"bytes\\x00\"", "b\"\"", "r\"raw \\ x\"", "r#\"q \" q\"#",
    "r##\"a \"# b\"##", "br\"x\\y\"", "br#\"\"#", "c\"cstr\"", "cr#\"c \" d\"#", "\"(\"", "\"}\"", "'('", "')'",
    "\"a string literal that is longer than the usual ones, with some \\\"escapes\\\" and 'quotes' in it\"",
    "\"// no comment\"", "\"/* no\"", "\"it's\"", "\"\\x7f\\0\"",
];
const XLITS: &[&str] = &[
    "\"two\nlines\"", "\"cr\r\nlf\"", "\"cont\\\n    inued\"", "\"cont\\\r\n \t x\"", "r\"raw\nraw\"", "\"abc\"suffix",
    "'x'suf", "1foo", "b\"a\nb\"", "br\"a\r\nb\"", "c\"\\xFFé\"", "r\" pad \"", "\" pad \"", "br##\" pad \"##", "cr\" pad \"", "c\" pad \"", "b\" pad \"",
    "b\"cont\\\n  x\"", "b\"cr\r\nlf\"", "c\"cont\\\n x\"", "c\"cr\r\nlf\"", "cr\"a\r\nb\"", "\"\\u{1_F6_00}\"", "c\"\\u{e9}\"", "c\"\\n\\t\\\\\"",
];
const ULITS: &[&str] = &["'é'", "'😀'", "\"é😀\"", "r\"日本\"", "\"naïve — ok\"", "c\"ü\"", "r#\"ß\"ß\"#", "\"\u{301}a\""];

#[derive(Clone, Copy, PartialEq)]
enum Prev {
    Start,
    Open,
    Close,
    Ident,
    Lifetime,
    Punct(char),
    Num,
    Lit,
    /// Separator, or anything after which nothing can glue.
    Sep,
    /// A line doc comment, which needs a newline.
    LineDoc,
}

struct B<'a> {
    r: &'a mut Rng,
    sh: Shape,
    file: u32,
    text: String,
    chars: u32,
    prev: Prev,
    stack: Vec<(MDelim, u32, Vec<MTok>)>,
    cur: Vec<MTok>,
    cuts: Vec<Cut>,
}

impl B<'_> {
    fn put(&mut self, s: &str) -> (u32, u32) {
        let lo = self.chars;
        self.text.push_str(s);
        self.chars += s.chars().count() as u32;
        (lo, self.chars)
    }
    fn span(&self, (lo, hi): (u32, u32)) -> MSpan {
        MSpan::File { file: self.file, lo, hi }
    }
    fn cut(&mut self) {
        let ntop = if self.stack.is_empty() { self.cur.len() } else { self.stack[0].2.len() };
        self.cuts.push(Cut { byte: self.text.len(), depth: self.stack.len(), ntop });
    }
    fn sep(&mut self, must: bool) {
        self.cut();
        if self.prev == Prev::LineDoc {
            let end = if self.r.chance(1, 4) { "\r\n" } else { "\n" };
            self.put(end);
            self.prev = Prev::Sep;
            self.cut();
            if self.r.chance(1, 2) {
                return;
            }
        }
        let n = if must { self.r.range(1, 2) } else { self.r.range(0, 1) };
        for _ in 0..n {
            let slash = self.prev == Prev::Punct('/');
            let mut opts: Vec<&str> = vec![" ", " ", " ", " ", "\n", "\t", "  ", "\r\n", "\n\n    "];
            if self.sh.unicode && !self.sh.plain {
                opts.extend(["\u{200e}", "\u{2028}", "\u{85}", "\u{200f}", "\u{2029}"]);
            }
            if self.sh.comments && !slash {
                opts.extend([
                    "/**/", "/* c */", "/* it's ( [ \" */", "/* a /* nested */ b */", "// line (\n", "// crlf '\r\n",
                    "//// four }\n", "/*** stars **/", "//\n", "/***/", "/* // */", "// /* no\n",
                ]);
                if self.sh.unicode {
                    opts.extend(["/* ünï😀 */", "// ναι ✓\n", "/* \u{2028} 行\n 行 */"]);
                }
            }
            let s = *self.r.pick(&opts);
            self.put(s);
            self.prev = Prev::Sep;
            self.cut();
        }
    }
    /// Separate from what came before, if gluing `next` would change tokens.
    fn before(&mut self, next: Prev, ch: char) {
        let p = self.prev;
        let safe = match (p, next) {
            (Prev::Start | Prev::Open | Prev::Close | Prev::Sep, _) => true,
            (Prev::LineDoc, _) => false,
            (Prev::Ident | Prev::Num | Prev::Lit, Prev::Open | Prev::Close) => true,
            (Prev::Lifetime, Prev::Open | Prev::Close) => true,
            (Prev::Punct(_), Prev::Open | Prev::Close) => true,
            (Prev::Ident, Prev::Punct(c)) => !matches!(c, '#' | '\''),
            (Prev::Lifetime, Prev::Punct(c)) => !matches!(c, '#' | '\''),
            (Prev::Num, Prev::Punct(c)) => !matches!(c, '.' | '#' | '\'' | '+' | '-'),
            (Prev::Lit, Prev::Punct(c)) => !matches!(c, '#' | '\''),
            (Prev::Punct(a), Prev::Punct(c)) => !(a == '/' && matches!(c, '/' | '*')),
            (Prev::Punct(a), Prev::Ident) => a != '#',
            (Prev::Punct(a), Prev::Lifetime) => a != '#',
            (Prev::Punct(a), Prev::Num) => a != '.',
            (Prev::Punct(a), Prev::Lit) => a != '#',
            _ => false,
        };
        let _ = ch;
        let glue = safe && self.r.chance(if matches!(p, Prev::Start | Prev::Sep) { 9 } else { 4 }, 10);
        if !glue {
            self.sep(!safe);
            // A separator may legitimately be empty only when gluing is safe.
        } else {
            self.cut();
        }
    }
    fn ident(&mut self) {
        self.before(Prev::Ident, 'i');
        let k = self.r.below(10);
        let s = if k < 2 && self.sh.unicode {
            *self.r.pick(UIDENTS)
        } else if k == 2 {
            *self.r.pick(RIDENTS)
        } else {
            *self.r.pick(IDENTS)
        };
        let sp = self.put(s);
        let span = self.span(sp);
        self.cur.push(MTok::Ident { text: s.into(), span });
        self.prev = Prev::Ident;
    }
    fn lifetime(&mut self) {
        self.before(Prev::Lifetime, '\'');
        let s = if self.sh.unicode && self.r.chance(1, 4) { *self.r.pick(ULIFETIMES) } else { *self.r.pick(LIFETIMES) };
        let a = self.put("'");
        let sp = self.span(a);
        self.cur.push(MTok::Punct { ch: '\'', joint: true, span: sp });
        let b = self.put(s);
        let span = self.span(b);
        self.cur.push(MTok::Ident { text: s.into(), span });
        self.prev = Prev::Lifetime;
    }
    fn punct(&mut self) {
        let ch = *self.r.pick(PUNCTS);
        self.before(Prev::Punct(ch), ch);
        let sp = self.put(ch.encode_utf8(&mut [0; 4]));
        let span = self.span(sp);
        self.cur.push(MTok::Punct { ch, joint: false, span });
        self.prev = Prev::Punct(ch);
    }
    fn lit(&mut self) {
        let num = self.r.chance(1, 2);
        self.before(if num { Prev::Num } else { Prev::Lit }, '0');
        let s = if num {
            *self.r.pick(NUMS)
        } else if self.sh.unicode && self.r.chance(1, 3) {
            *self.r.pick(ULITS)
        } else if !self.sh.plain && self.r.chance(1, 50) {
            // How the compiler writes an expansion error; a token in texts only.
            "(/*ERROR*/)"
        } else if !self.sh.plain && self.r.chance(1, 4) {
            *self.r.pick(XLITS)
        } else {
            *self.r.pick(LITS)
        };
        let sp = self.put(s);
        let span = self.span(sp);
        self.cur.push(MTok::Lit { repr: s.into(), span });
        self.prev = if num { Prev::Num } else { Prev::Lit };
    }
    fn doc(&mut self) {
        // A doc comment must not fuse with a preceding `/`.
        if matches!(self.prev, Prev::Punct(_) | Prev::LineDoc) {
            self.sep(true);
            if matches!(self.prev, Prev::Punct(_)) {
                self.put(" ");
            }
        } else {
            self.cut();
        }
        const DOCS: &[(&str, &str, &str, bool, bool)] = &[
            ("///", " line doc", "", false, true),
            ("///", "", "", false, true),
            ("//!", " inner line", "", true, true),
            ("/**", " block doc ", "*/", false, false),
            ("/*!", " inner block ", "*/", true, false),
            ("/*!", "", "*/", true, false),
            ("///", " it has ( and [", "", false, true),
            ("///", " ünï 行 ✓", "", false, true),
            ("//!", " q\"uote 😀", "", true, true),
            ("/**", " two\n lines 行 ", "*/", false, false),
            ("/*!", " cr\r\n /* nested */ ✓ ", "*/", true, false),
        ];
        let docs = if self.sh.unicode { DOCS } else { &DOCS[..7] };
        let &(open, body, close, inner, line) = self.r.pick(docs);
        let s = format!("{open}{body}{close}");
        let sp = self.put(&s);
        let span = self.span(sp);
        let call = span.clone();
        self.cur.push(MTok::Punct { ch: '#', joint: false, span: span.clone() });
        if inner {
            self.cur.push(MTok::Punct { ch: '!', joint: false, span: span.clone() });
        }
        let esc = body.replace('"', "\\\"").replace('\r', "\\r").replace('\n', "\\n");
        let repr: Rc<str> = format!("\"{esc}\"").into();
        let toks = vec![
            MTok::Ident { text: "doc".into(), span: span.clone() },
            MTok::Punct { ch: '=', joint: false, span: span.clone() },
            MTok::Lit { repr, span: span.clone() },
        ];
        self.cur.push(MTok::Group { delim: 2, toks: Rc::new(toks), open: first(&span), close: last(&span), span: call });
        self.prev = if line { Prev::LineDoc } else { Prev::Close };
        // Mark doc puncts so the joint pass leaves them alone: their span is
        // wider than one character.
    }
    fn open(&mut self) {
        self.before(Prev::Open, '(');
        let d = self.r.below(3) as u8;
        let (lo, _) = self.put(["(", "{", "["][d as usize]);
        let cur = std::mem::take(&mut self.cur);
        self.stack.push((d, lo, cur));
        self.prev = Prev::Open;
    }
    fn close(&mut self) {
        self.before(Prev::Close, ')');
        let (d, lo, outer) = self.stack.pop().unwrap();
        let (_, hi) = self.put([")", "}", "]"][d as usize]);
        let toks = std::mem::replace(&mut self.cur, outer);
        let span = self.span((lo, hi));
        self.cur.push(MTok::Group { delim: d, toks: Rc::new(toks), open: first(&span), close: last(&span), span });
        self.prev = Prev::Close;
    }
    /// One very long separator, identifier, literal or comment.
    fn huge(&mut self, kind: u8, n: usize) {
        let rep = |s: &str| s.repeat(n / s.chars().count() + 1);
        match kind % 12 {
            k @ 0..=6 => {
                self.sep(true);
                if self.prev != Prev::Sep {
                    self.put("\n");
                }
                let s = match k {
                    0 => "\n".repeat(n),
                    1 => " ".repeat(n),
                    2 => rep(" \n\t\r\n"),
                    3 => format!("/*{}*/", rep("long comment\n")),
                    4 => format!("//{}\n", rep(" ναι")),
                    5 => format!("/*{}*/", rep("é")),
                    _ => "/*x*/".repeat(n / 5 + 1),
                };
                self.put(&s);
                self.prev = Prev::Sep;
            }
            7 => {
                self.before(Prev::Ident, 'i');
                let s = rep("identifier_");
                let sp = self.put(&s);
                let span = self.span(sp);
                self.cur.push(MTok::Ident { text: s.into(), span });
                self.prev = Prev::Ident;
            }
            k @ 8..=10 => {
                self.before(Prev::Lit, '0');
                let s = match k {
                    8 => format!("\"{}\"", rep("line of a string\n")),
                    9 => format!("\"{}\"", rep("日本é😀 ")),
                    _ => format!("r#\"{}\"#", rep("raw \" \\ ")),
                };
                let sp = self.put(&s);
                let span = self.span(sp);
                self.cur.push(MTok::Lit { repr: s.into(), span });
                self.prev = Prev::Lit;
            }
            _ => {
                for _ in 0..n.min(2500) {
                    self.punct();
                }
            }
        }
        self.cut();
    }
    fn some_tokens(&mut self, n: usize) {
        let at = match self.sh.huge {
            Some(_) => self.r.below(n),
            None => 0,
        };
        for i in 0..n {
            if let (Some((kind, len)), true) = (self.sh.huge, i == at) {
                self.huge(kind, len as usize);
                continue;
            }
            let k = self.r.below(20);
            match k {
                0..=5 => self.ident(),
                6..=9 => self.punct(),
                10..=12 => self.lit(),
                13 => self.lifetime(),
                14 | 15 if self.stack.len() < self.sh.max_depth => self.open(),
                16 | 17 if !self.stack.is_empty() => self.close(),
                18 if self.sh.docs => self.doc(),
                _ => self.punct(),
            }
        }
    }
}

fn builder(r: &mut Rng, sh: Shape, file: u32) -> B<'_> {
    let mut b = B {
        r,
        sh,
        file,
        text: String::new(),
        chars: 0,
        prev: Prev::Start,
        stack: Vec::new(),
        cur: Vec::new(),
        cuts: Vec::new(),
    };
    if sh.bom {
        b.put("\u{feff}");
    }
    b
}

/// Set the spacing of every one-character punct from the character after it.
fn fix_joint(toks: &mut [MTok], chars: &[char]) {
    for t in toks {
        match t {
            MTok::Group { toks, .. } => fix_joint(Rc::get_mut(toks).unwrap(), chars),
            MTok::Punct { ch, joint, span: MSpan::File { lo, hi, .. } } if *hi == *lo + 1 => {
                *joint = *ch == '\'' || joint_after(chars, *hi as usize);
            }
            _ => {}
        }
    }
}
fn joint_after(chars: &[char], i: usize) -> bool {
    match chars.get(i) {
        None => false,
        Some('/') => !matches!(chars.get(i + 1), Some('/' | '*')),
        Some(c) => PUNCTS.contains(c) || *c == '\'',
    }
}

pub fn valid(r: &mut Rng, sh: Shape, file: u32) -> Gen {
    let mut b = builder(r, sh, file);
    let n = b.sh.size;
    b.some_tokens(n);
    while !b.stack.is_empty() {
        b.close();
    }
    if b.r.chance(1, 2) {
        b.sep(false);
    }
    b.cut();
    let B { text, cur, cuts, .. } = b;
    let chars: Vec<char> = text.chars().collect();
    let mut toks = cur;
    fix_joint(&mut toks, &chars);
    Gen { text, toks, cuts }
}

/// The expected result of reading only the first `cut.byte` bytes; None if the
/// prefix must be rejected.
pub fn expect_prefix(g: &Gen, cut: &Cut) -> Option<Vec<MTok>> {
    if cut.depth > 0 {
        return None;
    }
    let mut toks: Vec<MTok> = g.toks[..cut.ntop].to_vec();
    let end = g.text[..cut.byte].chars().count() as u32;
    if let Some(MTok::Punct { joint, span: MSpan::File { lo, hi, .. }, .. }) = toks.last_mut() {
        if *hi == end && *hi == *lo + 1 {
            *joint = false;
        }
    }
    Some(toks)
}

/// A text that must be rejected, and where.
pub fn invalid(r: &mut Rng, sh: Shape) -> Bad {
    let mut b = builder(r, sh, 0);
    let n = b.r.below(b.sh.size + 1);
    b.some_tokens(n);
    match b.r.below(8) {
        0 | 1 => {
            // Never closed: blame the innermost open delimiter.
            b.open();
            let k = b.r.below(4);
            let depth = b.stack.len();
            for _ in 0..k {
                match b.r.below(3) {
                    0 => b.ident(),
                    1 => b.lit(),
                    _ => b.punct(),
                }
            }
            if b.r.chance(1, 2) {
                b.sep(false);
            }
            if b.prev == Prev::LineDoc {
                b.put("\n");
            }
            debug_assert!(b.stack.len() == depth);
            let at = b.stack.last().unwrap().1;
            Bad { text: b.text, at, why: "unclosed delimiter" }
        }
        2 | 3 => {
            // Closing delimiter that matches nothing, or the wrong one.
            b.before(Prev::Close, ')');
            let want = b.stack.last().map(|s| s.0);
            let d = match want {
                None => b.r.below(3) as u8,
                Some(w) => (w + 1 + b.r.below(2) as u8) % 3,
            };
            let (at, _) = b.put([")", "}", "]"][d as usize]);
            b.prev = Prev::Close;
            let k = b.r.below(3);
            for _ in 0..k {
                b.ident();
            }
            Bad { text: b.text, at, why: "unbalanced closing delimiter" }
        }
        _ => {
            b.sep(true);
            b.put(" ");
            const JUNK: &[&str] = &[
                "\"unterminated", "/* unterminated", "/* a /* b */", "`", "\\", "😀", "\u{0}", "'", "''", "b'", "b\"x",
                "r#\"x\"", "br\"x", "c\"x", "r##", "\"bad \\q escape\"", "\"bare \r cr\"", "'\\u{110000}'", "0b12",
                "0x", "b'é'", "b\"é\"", "c\"nul\0\"", "€", "r#self", "r#_", "\"\\u{}\"", "\"\\xff\"",
                "/*! unterminated", "/** unterminated", "'\\u{d800}'", "c\"\\x00\"", "c\"\\u{0}\"", "cr\"\0\"",
                "\"\\u{1234567}\"", "'ab'c'", "0b", "b'ab'", "c\"\\0\"",
                "b\"bare \r cr\"", "r\"bare \r cr\"", "br\"bare \r cr\"", "c\"bare \r cr\"", "cr\"bare \r cr\"", "/// bare \r cr",
                "b'\\u{41}'", "\"\\u{41", "'\\x80'", "0o8", "b\"\\u{41}\"", "br\"é\"", RAW256,
            ];
            let s = *b.r.pick(JUNK);
            // Nothing follows that could complete the token.
            let (at, _) = b.put(s);
            let open_ended = s.contains("unterminated") || matches!(s, "/* a /* b */" | "b\"x" | "br\"x" | "c\"x" | "r#\"x\"");
            if open_ended && b.r.chance(1, 2) {
                const TAIL: &[&str] = &[" lorem", "\n", " 12,", " ναι;", " (ipsum)", " ipsum(", " ]", "\n  fn x {"];
                let tail = if b.r.chance(1, 2) { TAIL } else { &TAIL[..5] };
                for _ in 0..1 << b.r.below(7) {
                    let w = *b.r.pick(tail);
                    b.put(w);
                }
            }
            Bad { text: b.text, at, why: "malformed token" }
        }
    }
}

/// More `#` than a raw string may have.
const RAW256: &str = {
    const N: usize = 256;
    const RAW: [u8; 2 * N + 4] = {
        let mut v = [b'#'; 2 * N + 4];
        v[0] = b'r';
        v[N + 1] = b'"';
        v[N + 2] = b'x';
        v[N + 3] = b'"';
        v
    };
    match std::str::from_utf8(&RAW) {
        Ok(s) => s,
        Err(_) => panic!(),
    }
};

/// A literal no stream needs to have contained.
pub fn valid_literal(v: u8) -> &'static str {
    let all = [NUMS, LITS, ULITS];
    let k = all[v as usize % 3];
    k[v as usize / 3 % k.len()]
}

/// Literals valid on their own.
pub fn literal_text(r: &mut Rng, plain: bool) -> &'static str {
    match r.below(if plain { 2 } else { 4 }) {
        0 => r.pick(NUMS),
        1 => r.pick(LITS),
        2 => r.pick(ULITS),
        _ => r.pick(XLITS),
    }
}
pub const NEG_NUMS: &[&str] = &["-1", "-2.5", "-0x1", "-7i8", "-1e3", "-170141183460469231731687303715884105728i128", "-123_456_789.000_000_1e-10f64"];
pub const BAD_LITS: &[&str] = &[
    "", "x", "1 2", " 1", "1 ", "--1", "- 1", "-\"a\"", "\"a", "'ab'", "()", "r#x", "-x", "/*c*/1", "+1", "1/**/", "'a",
    "b'", "-", "\u{feff}1",
];

/// Corrupt a text the way a torn or damaged read does.
pub fn corrupt(r: &mut Rng, text: &str) -> (String, &'static str) {
    let mut v: Vec<u8> = text.as_bytes().to_vec();
    let what;
    match r.below(7) {
        0 => {
            let n = r.below(v.len() + 1);
            v.truncate(n);
            what = "short read";
        }
        1 => {
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            what = "bit flip";
        }
        2 => {
            if !v.is_empty() {
                let a = r.below(v.len());
                let b = (a + 1 + r.log(64)).min(v.len());
                v.drain(a..b);
            }
            what = "lost block";
        }
        3 => {
            if !v.is_empty() {
                let a = r.below(v.len());
                let b = (a + 1 + r.log(64)).min(v.len());
                let dup: Vec<u8> = v[a..b].to_vec();
                let at = r.below(v.len() + 1);
                v.splice(at..at, dup);
            }
            what = "duplicated block";
        }
        4 => {
            if !v.is_empty() {
                let a = r.below(v.len());
                let b = (a + 1 + r.log(64)).min(v.len());
                let fill = *r.pick(&[0u8, b' ', 0xff, b'"', b'(']);
                v[a..b].iter_mut().for_each(|x| *x = fill);
            }
            what = "overwritten block";
        }
        5 => {
            const INS: &[&str] = &[
                "\"", "'", "/*", "*/", "//", "(", ")", "{", "]", "\\", "\r", "\n", "r#", "b'", "c\"", "0x", "1e", "é", "😀",
                "\u{feff}", "\\u{", "\0", "##", "(/*ERROR*/)", "'é", "b'é'", "0b_", "1.e", "\u{200e}", "r#\"", "br##\"",
            ];
            let n = r.range(1, 3);
            for _ in 0..n {
                let ins = *r.pick(INS);
                let at = r.below(v.len() + 1);
                v.splice(at..at, ins.bytes());
            }
            what = "inserted garbage";
        }
        _ => {
            // Torn write: tail of another version.
            let n = r.below(v.len() + 1);
            let m = r.below(v.len() + 1);
            let tail: Vec<u8> = v[m..].to_vec();
            v.truncate(n);
            v.extend(tail);
            what = "torn write";
        }
    }
    (String::from_utf8_lossy(&v).into_owned(), what)
}
