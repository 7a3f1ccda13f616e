//! The neutral form in which the reference decoder says what an image contains and in which the
//! adapter says what the library reported.
use crate::hash::Digest;
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'i> {
    Open(&'static str),
    Close,
    Num(&'static str, i64),
    /// `plain`: the text is stored in the image as ordinary UTF-8, so it can be handed out as a slice.
    Str { l: &'static str, s: Cow<'i, str>, plain: bool },
    Raw { l: &'static str, b: &'i [u8] },
}

pub trait Sink {
    fn open(&mut self, l: &'static str);
    fn close(&mut self);
    fn num(&mut self, l: &'static str, v: i64);
    /// `inside`: the text handed out points into the image.
    fn str(&mut self, l: &'static str, s: &str, inside: bool);
    fn raw(&mut self, l: &'static str, b: &[u8], inside: bool);
    /// False once the consumer has seen enough.
    fn more(&self) -> bool {
        true
    }
}

/// Digest of everything reported.
#[derive(Default)]
pub struct Hasher {
    pub d: Digest,
    pub n: u64,
}
impl Sink for Hasher {
    fn open(&mut self, l: &'static str) {
        self.n += 1;
        self.d.word(1);
        self.d.text(l);
    }
    fn close(&mut self) {
        self.d.word(2);
    }
    fn num(&mut self, l: &'static str, v: i64) {
        self.n += 1;
        self.d.word(3);
        self.d.text(l);
        self.d.word(v as u64);
    }
    fn str(&mut self, l: &'static str, s: &str, _inside: bool) {
        self.n += 1;
        self.d.word(4);
        self.d.text(l);
        self.d.text(s);
    }
    fn raw(&mut self, l: &'static str, b: &[u8], _inside: bool) {
        self.n += 1;
        self.d.word(5);
        self.d.text(l);
        self.d.bytes(b);
    }
}

/// Collects what was reported.
#[derive(Default)]
pub struct Collector {
    pub toks: Vec<Tok<'static>>,
}
impl Sink for Collector {
    fn open(&mut self, l: &'static str) {
        self.toks.push(Tok::Open(l));
    }
    fn close(&mut self) {
        self.toks.push(Tok::Close);
    }
    fn num(&mut self, l: &'static str, v: i64) {
        self.toks.push(Tok::Num(l, v));
    }
    fn str(&mut self, l: &'static str, s: &str, inside: bool) {
        self.toks.push(Tok::Str { l, s: Cow::Owned(s.to_string()), plain: inside });
    }
    fn raw(&mut self, l: &'static str, b: &[u8], _inside: bool) {
        self.toks.push(Tok::Raw { l, b: Box::leak(b.to_vec().into_boxed_slice()) });
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Diff {
    Content,
    NotBorrowed,
}

/// Compares a report with the expectation, token by token, and keeps the first difference.
pub struct Comparer<'e, 'i> {
    exp: &'e [Tok<'i>],
    pos: usize,
    skip_bytecode: bool,
    check_content: bool,
    check_borrow: bool,
    path: Vec<&'static str>,
    pub diff: Option<(Diff, String)>,
    pub compared: u64,
    pub borrowed: u64,
}
fn clip(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i == 60 {
            out.push_str(&format!("..({} bytes)", s.len()));
            break;
        }
        out.extend(c.escape_debug());
    }
    out
}
fn show(t: Option<&Tok>) -> String {
    match t {
        None => "nothing more".into(),
        Some(Tok::Open(l)) => format!("start of {}", l),
        Some(Tok::Close) => "end of group".into(),
        Some(Tok::Num(l, v)) => format!("{} = {} (0x{:x})", l, v, v),
        Some(Tok::Str { l, s, .. }) => format!("{} = \"{}\"", l, clip(s)),
        Some(Tok::Raw { l, b }) => format!("{} = {} bytes, digest {:x}", l, b.len(), crate::hash::of_bytes(b)),
    }
}
impl<'e, 'i> Comparer<'e, 'i> {
    pub fn new(exp: &'e [Tok<'i>], skip_bytecode: bool, check_content: bool, check_borrow: bool) -> Self {
        Comparer { exp, pos: 0, skip_bytecode, check_content, check_borrow, path: Vec::with_capacity(16), diff: None, compared: 0, borrowed: 0 }
    }
    fn next(&mut self) -> Option<&'e Tok<'i>> {
        while self.skip_bytecode && matches!(self.exp.get(self.pos), Some(Tok::Open("bytecode"))) {
            let mut depth = 0;
            while let Some(t) = self.exp.get(self.pos) {
                self.pos += 1;
                match t {
                    Tok::Open(_) => depth += 1,
                    Tok::Close => depth -= 1,
                    _ => (),
                }
                if depth == 0 {
                    break;
                }
            }
        }
        let t = self.exp.get(self.pos);
        self.pos += 1;
        self.compared += 1;
        t
    }
    fn bad(&mut self, kind: Diff, exp: Option<&Tok>, got: String) {
        if self.diff.is_none() && (kind != Diff::Content || self.check_content) {
            let what = if kind == Diff::NotBorrowed {
                format!("at {}: {} should be a slice of the image but is a copy", self.path.join("/"), show(exp))
            } else {
                format!("at {}: the image says {}; reported: {}", self.path.join("/"), show(exp), got)
            };
            self.diff = Some((kind, what));
        }
    }
    /// Call once everything has been reported.
    pub fn finish(&mut self) {
        if self.diff.is_none() {
            let t = self.next();
            if t.is_some() {
                self.bad(Diff::Content, t, "nothing more".into());
            }
        }
    }
}
impl Sink for Comparer<'_, '_> {
    fn open(&mut self, l: &'static str) {
        if self.diff.is_some() {
            return;
        }
        let t = self.next();
        if !matches!(t, Some(Tok::Open(e)) if *e == l) {
            self.bad(Diff::Content, t, format!("start of {}", l));
        }
        self.path.push(l);
    }
    fn close(&mut self) {
        if self.diff.is_some() {
            return;
        }
        let t = self.next();
        if !matches!(t, Some(Tok::Close)) {
            self.bad(Diff::Content, t, "end of group".into());
        }
        self.path.pop();
    }
    fn num(&mut self, l: &'static str, v: i64) {
        if self.diff.is_some() {
            return;
        }
        let t = self.next();
        if !matches!(t, Some(Tok::Num(el, ev)) if *el == l && *ev == v) {
            self.bad(Diff::Content, t, format!("{} = {} (0x{:x})", l, v, v));
        }
    }
    fn str(&mut self, l: &'static str, s: &str, inside: bool) {
        if self.diff.is_some() {
            return;
        }
        let t = self.next();
        match t {
            Some(Tok::Str { l: el, s: es, plain }) if *el == l && es.as_ref() == s => {
                if *plain && !s.is_empty() {
                    self.borrowed += 1;
                    if !inside && self.check_borrow {
                        self.bad(Diff::NotBorrowed, t, String::new());
                    }
                }
            }
            _ => self.bad(Diff::Content, t, format!("{} = \"{}\"", l, clip(s))),
        }
    }
    fn raw(&mut self, l: &'static str, b: &[u8], inside: bool) {
        if self.diff.is_some() {
            return;
        }
        let t = self.next();
        match t {
            Some(Tok::Raw { l: el, b: eb }) if *el == l && *eb == b => {
                if !b.is_empty() {
                    self.borrowed += 1;
                    if !inside && self.check_borrow {
                        self.bad(Diff::NotBorrowed, t, String::new());
                    }
                }
            }
            _ => self.bad(Diff::Content, t, format!("{} = {} bytes, digest {:x}", l, b.len(), crate::hash::of_bytes(b))),
        }
    }
    fn more(&self) -> bool {
        self.diff.is_none()
    }
}
