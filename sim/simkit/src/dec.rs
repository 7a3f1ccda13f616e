//! The reference decoder: an independent reading of a class image, written against chapter 4 of the
//! JVM specification and the leniencies documented in DESIGN.md. It decides whether an image must be
//! accepted or rejected and what an accepted image has to be reported as.
use crate::optab::{widenable, Fmt, NEWARRAY, OPS};
use crate::tok::Tok;
use std::borrow::Cow;

/// Why an image is not acceptable (doubles as the name of the rule it breaks).
pub type Reason = &'static str;
type R<T> = Result<T, Reason>;

/// Nesting up to these depths has to be supported; what happens beyond is up to the library.
pub const ATTR_DEPTH_SURE: usize = 8;
pub const ANNO_DEPTH_SURE: usize = 48;
const HARD_DEPTH: usize = 400;
const WORK: i64 = 24 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    /// A number without a meaning for the structure.
    Value,
    Flags,
    Count,
    Len,
    Tag,
    /// Constant pool index.
    Idx,
    Text,
    Opcode,
    Jump,
    Raw,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub role: &'static str,
    pub kind: FK,
    pub off: u32,
    pub len: u32,
}

/// One element of a counted list, with everything a structurally consistent edit has to touch.
#[derive(Clone, Debug)]
pub struct Rec {
    pub list: &'static str,
    pub off: u32,
    pub len: u32,
    pub count_off: u32,
    pub count_width: u8,
    /// Offsets of the length fields of the attributes around it.
    pub inside: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum Ent<'i> {
    Zero,
    Gap,
    Text { s: Cow<'i, str>, plain: bool },
    Bytes(&'i [u8]),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    One(u8, u16),
    Two(u8, u16, u16),
    Handle(u8, u16),
    Boot(u8, u16, u16),
}
impl Ent<'_> {
    pub fn tag(&self) -> u8 {
        match self {
            Ent::Zero => 0,
            Ent::Gap => 255,
            Ent::Text { .. } | Ent::Bytes(_) => 1,
            Ent::Int(_) => 3,
            Ent::Float(_) => 4,
            Ent::Long(_) => 5,
            Ent::Double(_) => 6,
            Ent::One(t, _) | Ent::Two(t, _, _) | Ent::Boot(t, _, _) => *t,
            Ent::Handle(..) => 15,
        }
    }
}

pub struct Decoded<'i> {
    pub toks: Vec<Tok<'i>>,
    /// What the constant listing has to contain, if the pool is acceptable.
    pub consts: Vec<Tok<'i>>,
    /// Structural rule broken (whatever the options).
    pub reject: Option<Reason>,
    /// Rule broken inside a method body (matters only if bytecode is parsed).
    pub bytecode_reject: Option<Reason>,
    /// Nesting beyond what has to be supported.
    pub gray: Option<Reason>,
    /// Too deep for the reference decoder itself: nothing is known about the image.
    pub unknown: bool,
    pub map: Vec<Field>,
    pub recs: Vec<Rec>,
    pub tags: Vec<u8>,
    /// Bytes of text that cannot be handed out as slices, counted per use.
    pub owned: u64,
    /// Bytes of text counted per reference to it: by constants and by what is reported.
    pub reach: u64,
    pub end: usize,
    /// (toks index, count of instructions) per method body
    pub bodies: u32,
    pub ops: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject(Reason),
    Either(Reason),
}
impl Decoded<'_> {
    pub fn verdict(&self, bytecode: bool) -> Verdict {
        if self.unknown {
            return Verdict::Either("beyond the reference decoder");
        }
        match (self.reject, self.bytecode_reject, self.gray) {
            (Some(r), _, _) => Verdict::Reject(r),
            (None, Some(r), _) if bytecode => Verdict::Reject(r),
            (None, _, Some(g)) => Verdict::Either(g),
            _ => Verdict::Accept,
        }
    }
}

// ------------------------------------------------------------------------------------------ text

/// Modified UTF-8 (or ordinary UTF-8). None: not representable as text.
pub fn text_of(b: &[u8]) -> Option<(Cow<'_, str>, bool)> {
    if let Ok(s) = std::str::from_utf8(b) {
        return Some((Cow::Borrowed(s), true));
    }
    // UTF-16 code units first, then pair the surrogates up.
    let mut units: Vec<u16> = Vec::with_capacity(b.len());
    let mut i = 0;
    let cont = |k: usize| b.get(k).copied().filter(|x| x & 0xc0 == 0x80).map(|x| (x & 0x3f) as u16);
    while i < b.len() {
        let x = b[i];
        if x == 0 {
            return None;
        } else if x < 0x80 {
            units.push(x as u16);
            i += 1;
        } else if x & 0xe0 == 0xc0 {
            let u = ((x & 0x1f) as u16) << 6 | cont(i + 1)?;
            if u != 0 && u < 0x80 {
                return None;
            }
            units.push(u);
            i += 2;
        } else if x & 0xf0 == 0xe0 {
            let u = ((x & 0x0f) as u16) << 12 | cont(i + 1)? << 6 | cont(i + 2)?;
            if u < 0x800 {
                return None;
            }
            units.push(u);
            i += 3;
        } else {
            return None;
        }
    }
    let mut s = String::with_capacity(b.len());
    for r in char::decode_utf16(units) {
        s.push(r.ok()?);
    }
    Some((Cow::Owned(s), false))
}

fn plain_segment(s: &str) -> bool {
    !s.is_empty() && !s.bytes().any(|c| matches!(c, b'.' | b';' | b'[' | b'/'))
}
pub fn unqualified(s: &str) -> bool {
    plain_segment(s)
}
pub fn binary_name(s: &str) -> bool {
    s.split('/').all(plain_segment)
}
fn method_name(s: &str, interface: bool) -> bool {
    match s {
        "<clinit>" => true,
        "<init>" => !interface,
        _ => plain_segment(s) && !s.contains('<') && !s.contains('>'),
    }
}
fn module_name(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            0..=0x1f | b':' | b'@' => return false,
            b'\\' => {
                i += 1;
                if !matches!(b.get(i), Some(b'\\' | b':' | b'@')) {
                    return false;
                }
            }
            _ => (),
        }
        i += 1;
    }
    true
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldType {
    pub dims: u8,
    pub base: u8,
    /// Range of the class name in the descriptor text, for base 'L'.
    pub name: (usize, usize),
}
/// The field type at the start of `s`, and its length.
fn field_type(s: &str) -> Option<(FieldType, usize)> {
    let b = s.as_bytes();
    let dims = b.iter().take_while(|c| **c == b'[').count();
    if dims > 255 {
        return None;
    }
    match *b.get(dims)? {
        c @ (b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z') => Some((FieldType { dims: dims as u8, base: c, name: (0, 0) }, dims + 1)),
        b'L' => {
            let semi = dims + s[dims..].find(';')?;
            binary_name(&s[dims + 1..semi]).then_some((FieldType { dims: dims as u8, base: b'L', name: (dims + 1, semi) }, semi + 1))
        }
        _ => None,
    }
}
pub fn field_desc(s: &str) -> Option<FieldType> {
    field_type(s).filter(|(_, n)| *n == s.len()).map(|(t, _)| t)
}
/// Parameter types with the offset of each, and the return type (None: void).
pub type MethodDesc = (Vec<(usize, FieldType)>, Option<(usize, FieldType)>);
pub fn method_desc(s: &str) -> Option<MethodDesc> {
    let mut rest = s.strip_prefix('(')?;
    let mut params = Vec::new();
    loop {
        let at = s.len() - rest.len();
        if let Some(ret) = rest.strip_prefix(')') {
            let at = at + 1;
            return if ret == "V" { Some((params, None)) } else { field_desc(ret).map(|t| (params, Some((at, t)))) };
        }
        let (t, n) = field_type(rest)?;
        params.push((at, t));
        rest = &rest[n..];
    }
}

// --------------------------------------------------------------------------------------- decoder

struct Dec<'i> {
    b: &'i [u8],
    p: usize,
    toks: Vec<Tok<'i>>,
    map: Option<Vec<Field>>,
    recs: Vec<Rec>,
    inside: Vec<u32>,
    pool: Vec<Ent<'i>>,
    major: u16,
    gray: Option<Reason>,
    unknown: bool,
    work: std::cell::Cell<i64>,
    bytecode_reject: Option<Reason>,
    owned: u64,
    bodies: u32,
    ops: u64,
}

type Text<'i> = (Cow<'i, str>, bool);

const EOF: Reason = "image ends too early";

impl<'i> Dec<'i> {
    fn mark(&mut self, role: &'static str, kind: FK, off: usize, len: usize) {
        if let Some(m) = &mut self.map {
            m.push(Field { role, kind, off: off as u32, len: len as u32 });
        }
    }
    fn rec(&mut self, list: &'static str, off: usize, count_off: usize, count_width: usize) {
        if self.map.is_some() {
            let (len, inside) = (self.p - off, self.inside.clone());
            self.recs.push(Rec { list, off: off as u32, len: len as u32, count_off: count_off as u32, count_width: count_width as u8, inside });
        }
    }
    fn take(&mut self, n: usize) -> R<&'i [u8]> {
        if self.b.len() - self.p < n {
            return Err(EOF);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn int(&mut self, n: usize, role: &'static str, kind: FK) -> R<u64> {
        let off = self.p;
        let v = self.take(n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64);
        self.mark(role, kind, off, n);
        Ok(v)
    }
    fn u1(&mut self, role: &'static str, kind: FK) -> R<u8> {
        Ok(self.int(1, role, kind)? as u8)
    }
    fn u2(&mut self, role: &'static str, kind: FK) -> R<u16> {
        Ok(self.int(2, role, kind)? as u16)
    }
    fn u4(&mut self, role: &'static str, kind: FK) -> R<u32> {
        Ok(self.int(4, role, kind)? as u32)
    }
    fn open(&mut self, l: &'static str) {
        self.toks.push(Tok::Open(l));
    }
    fn close(&mut self) {
        self.toks.push(Tok::Close);
    }
    fn num(&mut self, l: &'static str, v: i64) {
        self.toks.push(Tok::Num(l, v));
    }
    fn text(&mut self, l: &'static str, t: Text<'i>) {
        if !t.1 {
            self.owned += t.0.len() as u64;
        }
        self.toks.push(Tok::Str { l, s: t.0, plain: t.1 });
    }
    fn raw(&mut self, l: &'static str, b: &'i [u8]) {
        self.toks.push(Tok::Raw { l, b });
    }
    /// Reads a plain number and reports it.
    fn value(&mut self, l: &'static str, n: usize) -> R<()> {
        let v = self.int(n, l, FK::Value)?;
        self.num(l, v as i64);
        Ok(())
    }

    // ------------------------------------------------------------------ constants
    fn ent(&self, ix: u16) -> Option<&Ent<'i>> {
        self.pool.get(ix as usize)
    }
    /// Long texts that are referred to many times can be too much for this decoder.
    fn affords(&self, n: usize) -> bool {
        self.work.set(self.work.get() + n as i64);
        self.work.get() < WORK
    }
    fn text_at(&self, ix: u16) -> Option<Text<'i>> {
        match self.ent(ix) {
            Some(Ent::Text { s, plain }) if self.affords(s.len()) => Some((s.clone(), *plain)),
            _ => None,
        }
    }
    fn one_at(&self, tag: u8, ix: u16) -> Option<Text<'i>> {
        match self.ent(ix) {
            Some(Ent::One(t, x)) if *t == tag => self.text_at(*x),
            _ => None,
        }
    }
    fn idx(&mut self, role: &'static str) -> R<u16> {
        self.u2(role, FK::Idx)
    }
    fn utf8(&mut self, role: &'static str) -> R<Text<'i>> {
        let ix = self.idx(role)?;
        self.text_at(ix).ok_or("index does not designate text")
    }
    fn utf8_opt(&mut self, role: &'static str) -> R<Option<Text<'i>>> {
        let ix = self.idx(role)?;
        if ix == 0 {
            return Ok(None);
        }
        self.text_at(ix).map(Some).ok_or("optional index does not designate text")
    }
    fn class(&mut self, role: &'static str) -> R<Text<'i>> {
        let ix = self.idx(role)?;
        self.one_at(7, ix).ok_or("index does not designate a class")
    }
    fn class_opt(&mut self, role: &'static str) -> R<Option<Text<'i>>> {
        let ix = self.idx(role)?;
        if ix == 0 {
            return Ok(None);
        }
        self.one_at(7, ix).map(Some).ok_or("optional index does not designate a class")
    }
    fn named(&mut self, tag: u8, role: &'static str) -> R<Text<'i>> {
        let ix = self.idx(role)?;
        self.one_at(tag, ix).ok_or(if tag == 19 { "index does not designate a module" } else { "index does not designate a package" })
    }
    fn opt(&mut self, l: &'static str, t: Option<Text<'i>>) {
        match t {
            Some(t) => self.text(l, t),
            None => self.num(l, -1),
        }
    }
    fn put_name_and_type(&mut self, ix: u16) {
        if let Some(&Ent::Two(12, n, d)) = self.ent(ix) {
            let (n, d) = (self.text_at(n).unwrap_or_default(), self.text_at(d).unwrap_or_default());
            self.text("name", n);
            self.text("descriptor", d);
        } else {
            unreachable!()
        }
    }
    fn put_member(&mut self, ix: u16) {
        if let Some(&Ent::Two(_, c, nt)) = self.ent(ix) {
            let c = self.one_at(7, c).unwrap_or_default();
            self.text("class", c);
            self.put_name_and_type(nt);
        } else {
            unreachable!()
        }
    }
    fn put_handle(&mut self, kind: u8, ix: u16) {
        let names = ["", "getfield", "getstatic", "putfield", "putstatic", "invokevirtual", "invokestatic", "invokespecial", "newinvokespecial", "invokeinterface"];
        self.open("methodhandle");
        self.toks.push(Tok::Open(names[kind as usize]));
        self.close();
        let t = self.ent(ix).unwrap().tag();
        self.toks.push(Tok::Open(match t {
            9 => "field",
            10 => "method",
            _ => "interfacemethod",
        }));
        self.close();
        self.put_member(ix);
        self.close();
    }
    fn put_literal(&mut self, ix: u16) -> bool {
        match self.ent(ix).cloned() {
            Some(Ent::Int(v)) => self.num("int", v as i64),
            Some(Ent::Float(v)) => self.num("float", v as i64),
            Some(Ent::Long(v)) => self.num("long", v),
            Some(Ent::Double(v)) => self.num("double", v as i64),
            Some(Ent::One(8, t)) => match self.ent(t).cloned() {
                Some(Ent::Bytes(b)) => self.raw("stringbytes", b),
                _ => {
                    let t = self.text_at(t).unwrap_or_default();
                    self.text("string", t)
                }
            },
            _ => return false,
        }
        true
    }
    /// The constants that can be arguments of bootstrap methods, or be pushed with ldc.
    fn put_loadable(&mut self, ix: u16) -> bool {
        match self.ent(ix).cloned() {
            Some(Ent::One(7, t)) => {
                let t = self.text_at(t).unwrap_or_default();
                self.text("classconst", t)
            }
            Some(Ent::One(16, t)) => {
                let t = self.text_at(t).unwrap_or_default();
                self.text("methodtype", t)
            }
            Some(Ent::Handle(k, t)) => self.put_handle(k, t),
            Some(Ent::Boot(17, a, nt)) => {
                self.open("dynamic");
                self.num("bootstrap", a as i64);
                self.put_name_and_type(nt);
                self.close();
            }
            _ => return self.put_literal(ix),
        }
        true
    }
    /// What the constant listing shows for an entry (nothing for bare text and gaps).
    fn put_constant(&mut self, ix: u16) {
        match self.pool[ix as usize].clone() {
            Ent::Zero | Ent::Gap | Ent::Text { .. } | Ent::Bytes(_) => (),
            Ent::Two(12, ..) => {
                self.open("nameandtype");
                self.put_name_and_type(ix);
                self.close();
            }
            Ent::Two(t, ..) => {
                self.open(match t {
                    9 => "fieldref",
                    10 => "methodref",
                    _ => "interfacemethodref",
                });
                self.put_member(ix);
                self.close();
            }
            Ent::Boot(18, a, nt) => {
                self.open("invokedynamic");
                self.num("bootstrap", a as i64);
                self.put_name_and_type(nt);
                self.close();
            }
            Ent::One(t @ (19 | 20), n) => {
                let n = self.text_at(n).unwrap_or_default();
                self.text(if t == 19 { "module" } else { "package" }, n);
            }
            _ => {
                let ok = self.put_loadable(ix);
                debug_assert!(ok);
            }
        }
    }

    fn pool(&mut self) -> R<()> {
        let count = self.u2("cp.count", FK::Count)?;
        self.pool.push(Ent::Zero);
        let mut ix = 1u32;
        while ix < count as u32 {
            let tag = self.u1("cp.tag", FK::Tag)?;
            let since = match tag {
                1 | 3..=12 => 0,
                15 | 16 | 18 => 51,
                19 | 20 => 53,
                17 => 55,
                _ => return Err("unknown constant tag"),
            };
            if self.major < since {
                return Err("constant tag is not allowed in this version");
            }
            let e = match tag {
                1 => {
                    let n = self.u2("utf8.length", FK::Len)? as usize;
                    let off = self.p;
                    let b = self.take(n)?;
                    self.mark("utf8.bytes", FK::Text, off, n);
                    match text_of(b) {
                        Some((s, plain)) => Ent::Text { s, plain },
                        None => Ent::Bytes(b),
                    }
                }
                3 => Ent::Int(self.u4("integer", FK::Value)? as i32),
                4 => Ent::Float(self.u4("float", FK::Value)?),
                5 => Ent::Long(self.int(8, "long", FK::Value)? as i64),
                6 => Ent::Double(self.int(8, "double", FK::Value)?),
                7 => Ent::One(7, self.idx("class.name")?),
                8 => Ent::One(8, self.idx("string.text")?),
                16 => Ent::One(16, self.idx("methodtype.descriptor")?),
                19 => Ent::One(19, self.idx("module.name")?),
                20 => Ent::One(20, self.idx("package.name")?),
                9 => Ent::Two(9, self.idx("fieldref.class")?, self.idx("fieldref.nt")?),
                10 => Ent::Two(10, self.idx("methodref.class")?, self.idx("methodref.nt")?),
                11 => Ent::Two(11, self.idx("imethodref.class")?, self.idx("imethodref.nt")?),
                12 => Ent::Two(12, self.idx("nt.name")?, self.idx("nt.descriptor")?),
                15 => {
                    let k = self.u1("methodhandle.kind", FK::Tag)?;
                    if k == 0 || k > 9 {
                        return Err("unknown method handle kind");
                    }
                    Ent::Handle(k, self.idx("methodhandle.ref")?)
                }
                17 => Ent::Boot(17, self.u2("dynamic.bootstrap", FK::Value)?, self.idx("dynamic.nt")?),
                _ => Ent::Boot(18, self.u2("indy.bootstrap", FK::Value)?, self.idx("indy.nt")?),
            };
            let wide = tag == 5 || tag == 6;
            self.pool.push(e);
            ix += 1;
            if wide {
                if ix >= count as u32 {
                    return Err("constant of two slots in the last slot");
                }
                self.pool.push(Ent::Gap);
                ix += 1;
            }
        }
        for i in 0..self.pool.len() {
            self.check_entry(i)?;
        }
        Ok(())
    }
    fn need_text(&self, ix: u16) -> R<&str> {
        match self.ent(ix) {
            Some(Ent::Text { s, .. }) if self.affords(s.len()) => Ok(s),
            Some(Ent::Bytes(_)) => Err("name is not valid text"),
            Some(_) => Err("constant refers to a constant of the wrong kind"),
            None => Err("constant refers outside of the pool"),
        }
    }
    fn need(&self, ix: u16, tags: &[u8]) -> R<()> {
        match self.ent(ix) {
            Some(e) if tags.contains(&e.tag()) => Ok(()),
            Some(_) => Err("constant refers to a constant of the wrong kind"),
            None => Err("constant refers outside of the pool"),
        }
    }
    fn nt_descriptor(&self, ix: u16) -> R<&str> {
        self.need(ix, &[12])?;
        match self.ent(ix) {
            Some(Ent::Two(12, _, d)) => self.need_text(*d),
            _ => unreachable!(),
        }
    }
    /// Bytes of text a constant leads to.
    fn reach(&self, i: u16, depth: u32) -> u64 {
        if depth > 4 {
            return 0;
        }
        match self.pool.get(i as usize) {
            Some(Ent::Text { s, .. }) if depth > 0 => s.len() as u64,
            Some(Ent::One(_, a) | Ent::Handle(_, a) | Ent::Boot(_, _, a)) => self.reach(*a, depth + 1),
            Some(Ent::Two(_, a, b)) => self.reach(*a, depth + 1) + self.reach(*b, depth + 1),
            _ => 0,
        }
    }
    fn check_entry(&self, i: usize) -> R<()> {
        let ok = |b: bool, r: Reason| if b { Ok(()) } else { Err(r) };
        match self.pool[i] {
            Ent::One(8, t) => self.need(t, &[1]),
            Ent::One(tag, t) => {
                let s = self.need_text(t)?;
                match tag {
                    7 => ok(binary_name(s) || (s.starts_with('[') && field_desc(s).is_some()), "class constant with an invalid name"),
                    16 => ok(method_desc(s).is_some(), "method type with an invalid descriptor"),
                    19 => ok(module_name(s), "module constant with an invalid name"),
                    _ => ok(binary_name(s), "package constant with an invalid name"),
                }
            }
            Ent::Two(12, n, d) => {
                ok(unqualified(self.need_text(n)?), "name-and-type with an invalid name")?;
                self.need_text(d).map(|_| ())
            }
            Ent::Two(tag, c, nt) => {
                self.need(c, &[7])?;
                let d = self.nt_descriptor(nt)?;
                if tag == 9 {
                    ok(field_desc(d).is_some(), "field reference with an invalid descriptor")
                } else {
                    ok(method_desc(d).is_some(), "method reference with an invalid descriptor")
                }
            }
            Ent::Handle(k, r) => {
                let tags: &[u8] = match k {
                    1..=4 => &[9],
                    5 | 8 => &[10],
                    9 => &[11],
                    _ if self.major < 52 => &[10],
                    _ => &[10, 11],
                };
                self.need(r, tags).map_err(|_| "method handle refers to the wrong kind of member")
            }
            Ent::Boot(tag, _, nt) => {
                let d = self.nt_descriptor(nt)?;
                if tag == 17 {
                    ok(field_desc(d).is_some(), "dynamic constant with an invalid descriptor")
                } else {
                    ok(method_desc(d).is_some(), "invokedynamic with an invalid descriptor")
                }
            }
            _ => Ok(()),
        }
    }

    // ------------------------------------------------------------------ descriptors
    fn slice(t: &Text<'i>, a: usize, b: usize) -> Text<'i> {
        match &t.0 {
            Cow::Borrowed(s) => (Cow::Borrowed(&s[a..b]), t.1),
            Cow::Owned(s) => (Cow::Owned(s[a..b].to_string()), t.1),
        }
    }
    fn put_field_type(&mut self, t: &Text<'i>, at: usize, ft: &FieldType) {
        self.open("type");
        self.num("dims", ft.dims as i64);
        let end = if ft.base == b'L' {
            let n = Self::slice(t, at + ft.name.0, at + ft.name.1);
            self.text("class", n);
            at + ft.name.1 + 1
        } else {
            self.num("base", ft.base as i64);
            at + ft.dims as usize + 1
        };
        let disp = t.0[at..end].to_string();
        self.toks.push(Tok::Str { l: "shown", s: Cow::Owned(disp), plain: false });
        self.close();
    }
    fn put_field_desc(&mut self, t: &Text<'i>) -> R<()> {
        let ft = field_desc(&t.0).ok_or("invalid field descriptor")?;
        if !t.1 {
            self.owned += t.0.len() as u64;
        }
        self.put_field_type(t, 0, &ft);
        Ok(())
    }

    // ------------------------------------------------------------------ attributes
    fn attributes(&mut self, depth: usize) -> R<()> {
        if depth > ATTR_DEPTH_SURE && self.gray.is_none() {
            self.gray = Some("deeply nested attributes");
        }
        if depth > HARD_DEPTH {
            self.unknown = true;
            return Err("too deep");
        }
        self.open("attributes");
        let count_off = self.p;
        let n = self.u2("attributes.count", FK::Count)?;
        for _ in 0..n {
            let off = self.p;
            self.attribute(depth)?;
            self.rec("attribute", off, count_off, 2);
        }
        self.close();
        Ok(())
    }
    fn list(&mut self, l: &'static str, role: &'static str, width: usize, f: &mut dyn FnMut(&mut Self) -> R<()>) -> R<()> {
        self.open(l);
        let count_off = self.p;
        let n = self.int(width, role, FK::Count)?;
        for _ in 0..n {
            let off = self.p;
            f(self)?;
            self.rec(l, off, count_off, width);
        }
        self.close();
        Ok(())
    }
    fn class_list(&mut self, l: &'static str, count: &'static str, role: &'static str) -> R<()> {
        self.list(l, count, 2, &mut |d| {
            let c = d.class(role)?;
            d.text("class", c);
            Ok(())
        })
    }
    fn attribute(&mut self, depth: usize) -> R<()> {
        let name = self.utf8("attribute.name")?;
        let role_len = match name.0.as_ref() {
            "ConstantValue" => "ConstantValue.length",
            "Code" => "Code.length",
            "EnclosingMethod" => "EnclosingMethod.length",
            "Synthetic" => "Synthetic.length",
            "Deprecated" => "Deprecated.length",
            "Signature" => "Signature.length",
            "SourceFile" => "SourceFile.length",
            "SourceDebugExtension" => "SourceDebugExtension.length",
            "ModuleMainClass" => "ModuleMainClass.length",
            "NestHost" => "NestHost.length",
            _ => "attribute.length",
        };
        let len = self.u4(role_len, FK::Len)? as usize;
        let start = self.p;
        if self.b.len() - start < len {
            return Err("attribute is longer than the image");
        }
        self.open("attribute");
        let n = name.0.to_string();
        self.text("name", name);
        self.inside.push(start as u32 - 4);
        let r = self.attribute_body(&n, len, depth);
        self.inside.pop();
        r?;
        if self.p != start + len {
            return Err("attribute length does not match its contents");
        }
        self.close();
        Ok(())
    }
    fn fixed(&self, len: usize, want: usize) -> R<()> {
        if len == want { Ok(()) } else { Err("fixed-size attribute with another length") }
    }
    fn attribute_body(&mut self, name: &str, len: usize, depth: usize) -> R<()> {
        match name {
            "ConstantValue" => {
                self.fixed(len, 2)?;
                self.open("ConstantValue");
                let ix = self.idx("ConstantValue.value")?;
                if !self.put_literal(ix) {
                    return Err("constant value is not a literal");
                }
            }
            "Code" => {
                self.open("Code");
                self.code(depth)?;
            }
            "StackMapTable" => {
                self.list("StackMapTable", "StackMapTable.count", 2, &mut Self::frame)?;
                return Ok(());
            }
            "Exceptions" => return self.class_list("Exceptions", "Exceptions.count", "Exceptions.class"),
            "InnerClasses" => {
                return self.list("InnerClasses", "InnerClasses.count", 2, &mut |d| {
                    d.open("inner");
                    let a = d.class("InnerClasses.inner")?;
                    let b = d.class_opt("InnerClasses.outer")?;
                    let c = d.utf8_opt("InnerClasses.name")?;
                    let f = d.u2("InnerClasses.flags", FK::Flags)?;
                    d.text("inner_class", a);
                    d.opt("outer_class", b);
                    d.opt("inner_name", c);
                    d.num("flags", (f & 0x761f) as i64);
                    d.close();
                    Ok(())
                })
            }
            "EnclosingMethod" => {
                self.fixed(len, 4)?;
                self.open("EnclosingMethod");
                let c = self.class("EnclosingMethod.class")?;
                self.text("class", c);
                let ix = self.idx("EnclosingMethod.method")?;
                match self.ent(ix) {
                    Some(Ent::Zero) => self.num("method", -1),
                    Some(Ent::Two(12, ..)) => self.put_name_and_type(ix),
                    _ => return Err("enclosing method is not a name-and-type"),
                }
            }
            "Synthetic" => {
                self.fixed(len, 0)?;
                self.open("Synthetic");
            }
            "Deprecated" => {
                self.fixed(len, 0)?;
                self.open("Deprecated");
            }
            "Signature" | "SourceFile" => {
                self.fixed(len, 2)?;
                let (l, role) = if name == "Signature" { ("Signature", "Signature.text") } else { ("SourceFile", "SourceFile.text") };
                self.open(l);
                let t = self.utf8(role)?;
                self.text("text", t);
            }
            "SourceDebugExtension" => {
                self.open("SourceDebugExtension");
                let off = self.p;
                let b = self.take(len)?;
                self.mark("SourceDebugExtension.bytes", FK::Text, off, len);
                let t = text_of(b).ok_or("debug extension is not valid text")?;
                self.text("text", t);
            }
            "LineNumberTable" => {
                return self.list("LineNumberTable", "LineNumberTable.count", 2, &mut |d| {
                    d.value("start_pc", 2)?;
                    d.value("line", 2)
                })
            }
            "LocalVariableTable" => {
                return self.list("LocalVariableTable", "LocalVariableTable.count", 2, &mut |d| {
                    d.value("start_pc", 2)?;
                    d.value("length", 2)?;
                    let n = d.utf8("LocalVariableTable.name")?;
                    if !unqualified(&n.0) {
                        return Err("invalid local variable name");
                    }
                    d.text("name", n);
                    let t = d.utf8("LocalVariableTable.descriptor")?;
                    d.put_field_desc(&t)?;
                    d.value("index", 2)
                })
            }
            "LocalVariableTypeTable" => {
                return self.list("LocalVariableTypeTable", "LocalVariableTypeTable.count", 2, &mut |d| {
                    d.value("start_pc", 2)?;
                    d.value("length", 2)?;
                    let n = d.utf8("LocalVariableTypeTable.name")?;
                    if !unqualified(&n.0) {
                        return Err("invalid local variable name");
                    }
                    d.text("name", n);
                    let t = d.utf8("LocalVariableTypeTable.signature")?;
                    d.text("signature", t);
                    d.value("index", 2)
                })
            }
            "RuntimeVisibleAnnotations" => return self.list("RuntimeVisibleAnnotations", "annotations.count", 2, &mut |d| d.annotation(0)),
            "RuntimeInvisibleAnnotations" => return self.list("RuntimeInvisibleAnnotations", "annotations.count", 2, &mut |d| d.annotation(0)),
            "RuntimeVisibleParameterAnnotations" => return self.list("RuntimeVisibleParameterAnnotations", "parameters.count", 1, &mut |d| d.list("parameter", "annotations.count", 2, &mut |d| d.annotation(0))),
            "RuntimeInvisibleParameterAnnotations" => return self.list("RuntimeInvisibleParameterAnnotations", "parameters.count", 1, &mut |d| d.list("parameter", "annotations.count", 2, &mut |d| d.annotation(0))),
            "RuntimeVisibleTypeAnnotations" => return self.list("RuntimeVisibleTypeAnnotations", "annotations.count", 2, &mut Self::type_annotation),
            "RuntimeInvisibleTypeAnnotations" => return self.list("RuntimeInvisibleTypeAnnotations", "annotations.count", 2, &mut Self::type_annotation),
            "AnnotationDefault" => {
                self.open("AnnotationDefault");
                self.element_value(0)?;
            }
            "BootstrapMethods" => {
                return self.list("BootstrapMethods", "BootstrapMethods.count", 2, &mut |d| {
                    d.open("bootstrap");
                    let ix = d.idx("BootstrapMethods.method")?;
                    match d.ent(ix) {
                        Some(&Ent::Handle(k, r)) => d.put_handle(k, r),
                        _ => return Err("bootstrap method is not a method handle"),
                    }
                    d.list("arguments", "BootstrapMethods.args", 2, &mut |d| {
                        let ix = d.idx("BootstrapMethods.arg")?;
                        if d.put_loadable(ix) { Ok(()) } else { Err("bootstrap argument of the wrong kind") }
                    })?;
                    d.close();
                    Ok(())
                })
            }
            "MethodParameters" => {
                return self.list("MethodParameters", "MethodParameters.count", 1, &mut |d| {
                    let n = d.utf8_opt("MethodParameters.name")?;
                    if n.as_ref().is_some_and(|n| !unqualified(&n.0)) {
                        return Err("invalid method parameter name");
                    }
                    d.opt("name", n);
                    d.strict_flags("MethodParameters.flags", 0x9010)
                })
            }
            "Module" => {
                self.open("Module");
                self.module()?;
            }
            "ModulePackages" => {
                return self.list("ModulePackages", "ModulePackages.count", 2, &mut |d| {
                    let n = d.named(20, "ModulePackages.package")?;
                    d.text("package", n);
                    Ok(())
                })
            }
            "ModuleMainClass" | "NestHost" => {
                self.fixed(len, 2)?;
                let (l, role) = if name == "NestHost" { ("NestHost", "NestHost.class") } else { ("ModuleMainClass", "ModuleMainClass.class") };
                self.open(l);
                let c = self.class(role)?;
                self.text("class", c);
            }
            "NestMembers" => return self.class_list("NestMembers", "NestMembers.count", "NestMembers.class"),
            "PermittedSubclasses" => return self.class_list("PermittedSubclasses", "PermittedSubclasses.count", "PermittedSubclasses.class"),
            "Record" => {
                return self.list("Record", "Record.count", 2, &mut |d| {
                    d.open("component");
                    let n = d.utf8("Record.name")?;
                    if !unqualified(&n.0) {
                        return Err("invalid record component name");
                    }
                    d.text("name", n);
                    let t = d.utf8("Record.descriptor")?;
                    d.put_field_desc(&t)?;
                    d.attributes(depth + 1)?;
                    d.close();
                    Ok(())
                })
            }
            _ => {
                self.open("Other");
                let off = self.p;
                let b = self.take(len)?;
                self.mark("attribute.bytes", FK::Raw, off, len);
                self.raw("bytes", b);
            }
        }
        self.close();
        Ok(())
    }
    fn strict_flags(&mut self, role: &'static str, allowed: u16) -> R<()> {
        let f = self.u2(role, FK::Flags)?;
        if f & !allowed != 0 {
            return Err("flags that are not defined here");
        }
        self.num("flags", f as i64);
        Ok(())
    }
    fn verification(&mut self) -> R<()> {
        let names = ["top", "integer", "float", "double", "long", "null", "uninitializedthis"];
        match self.u1("verification.tag", FK::Tag)? {
            t @ 0..=6 => {
                self.open(names[t as usize]);
                self.close();
            }
            7 => {
                let c = self.class("verification.class")?;
                self.text("object", c);
            }
            8 => self.value("uninitialized", 2)?,
            _ => return Err("unknown verification type"),
        }
        Ok(())
    }
    fn frame(&mut self) -> R<()> {
        let t = self.u1("frame.tag", FK::Tag)?;
        let delta = |d: &mut Self| d.value("delta", 2);
        match t {
            0..=63 => {
                self.open("same");
                self.num("delta", t as i64);
            }
            64..=127 => {
                self.open("same1");
                self.num("delta", t as i64 - 64);
                self.verification()?;
            }
            128..=246 => return Err("unknown stack map frame"),
            247 => {
                self.open("same1");
                delta(self)?;
                self.verification()?;
            }
            248..=250 => {
                self.open("chop");
                delta(self)?;
                self.num("chop", 251 - t as i64);
            }
            251 => {
                self.open("same");
                delta(self)?;
            }
            252..=254 => {
                self.open("append");
                delta(self)?;
                for _ in 0..t - 251 {
                    self.verification()?;
                }
            }
            255 => {
                self.open("full");
                delta(self)?;
                self.list("locals", "frame.locals", 2, &mut Self::verification)?;
                self.list("stack", "frame.stack", 2, &mut Self::verification)?;
            }
        }
        self.close();
        Ok(())
    }
    fn annotation(&mut self, depth: usize) -> R<()> {
        self.open("annotation");
        let t = self.utf8("annotation.type")?;
        self.put_field_desc(&t)?;
        self.list("elements", "annotation.elements", 2, &mut |d| {
            let n = d.utf8("element.name")?;
            d.text("name", n);
            d.element_value(depth)
        })?;
        self.close();
        Ok(())
    }
    fn element_value(&mut self, depth: usize) -> R<()> {
        if depth > ANNO_DEPTH_SURE && self.gray.is_none() {
            self.gray = Some("deeply nested annotation values");
        }
        if depth > HARD_DEPTH {
            self.unknown = true;
            return Err("too deep");
        }
        let t = self.u1("element.tag", FK::Tag)?;
        let wrong = "annotation value of the wrong kind";
        match t {
            b'B' | b'C' | b'I' | b'S' | b'Z' => {
                let ix = self.idx("element.int")?;
                let l = match t {
                    b'B' => "byte",
                    b'C' => "char",
                    b'I' => "int",
                    b'S' => "short",
                    _ => "boolean",
                };
                match self.ent(ix) {
                    Some(&Ent::Int(v)) => self.num(l, v as i64),
                    _ => return Err(wrong),
                }
            }
            b'D' => {
                let ix = self.idx("element.double")?;
                match self.ent(ix) {
                    Some(&Ent::Double(v)) => self.num("double", v as i64),
                    _ => return Err(wrong),
                }
            }
            b'F' => {
                let ix = self.idx("element.float")?;
                match self.ent(ix) {
                    Some(&Ent::Float(v)) => self.num("float", v as i64),
                    _ => return Err(wrong),
                }
            }
            b'J' => {
                let ix = self.idx("element.long")?;
                match self.ent(ix) {
                    Some(&Ent::Long(v)) => self.num("long", v),
                    _ => return Err(wrong),
                }
            }
            b's' => {
                let t = self.utf8("element.string")?;
                self.text("string", t);
            }
            b'e' => {
                self.open("enum");
                let t = self.utf8("element.enumtype")?;
                self.put_field_desc(&t)?;
                let c = self.utf8("element.enumconst")?;
                self.text("const", c);
                self.close();
            }
            b'c' => {
                let t = self.utf8("element.class")?;
                if t.0 != "V" && field_desc(&t.0).is_none() {
                    return Err("class literal with an invalid descriptor");
                }
                self.text("classliteral", t);
            }
            b'@' => self.annotation(depth + 1)?,
            b'[' => self.list("array", "element.array", 2, &mut |d| d.element_value(depth + 1))?,
            _ => return Err("unknown annotation value tag"),
        }
        Ok(())
    }
    fn type_annotation(&mut self) -> R<()> {
        self.open("typeannotation");
        let t = self.u1("typeannotation.target", FK::Tag)?;
        match t {
            0x00 | 0x01 => {
                self.open("typeparameter");
                self.value("index", 1)?;
            }
            0x10 => {
                self.open("supertype");
                self.value("index", 2)?;
            }
            0x11 | 0x12 => {
                self.open("typeparameterbound");
                self.value("parameter", 1)?;
                self.value("bound", 1)?;
            }
            0x13..=0x15 => self.open("empty"),
            0x16 => {
                self.open("formalparameter");
                self.value("index", 1)?;
            }
            0x17 => {
                self.open("throws");
                self.value("index", 2)?;
            }
            0x40 | 0x41 => {
                self.open("localvar");
                self.list("ranges", "typeannotation.ranges", 2, &mut |d| {
                    d.value("start_pc", 2)?;
                    d.value("length", 2)?;
                    d.value("index", 2)
                })?;
            }
            0x42 => {
                self.open("catch");
                self.value("index", 2)?;
            }
            0x43..=0x46 => {
                self.open("offset");
                self.value("offset", 2)?;
            }
            0x47..=0x4b => {
                self.open("typeargument");
                self.value("offset", 2)?;
                self.value("index", 1)?;
            }
            _ => return Err("unknown type annotation target"),
        }
        self.close();
        self.list("path", "typeannotation.path", 1, &mut |d| {
            let names = ["array", "nested", "wildcard", "argument"];
            match d.u1("typeannotation.pathkind", FK::Tag)? {
                k @ 0..=3 => {
                    d.open(names[k as usize]);
                    d.close();
                }
                _ => return Err("unknown type path kind"),
            }
            d.value("argument", 1)
        })?;
        self.annotation(0)?;
        self.close();
        Ok(())
    }
    fn module(&mut self) -> R<()> {
        let n = self.named(19, "Module.name")?;
        self.text("name", n);
        self.strict_flags("Module.flags", 0x9020)?;
        let v = self.utf8_opt("Module.version")?;
        self.opt("version", v);
        self.list("requires", "Module.requires", 2, &mut |d| {
            let n = d.named(19, "Module.require")?;
            d.text("name", n);
            d.strict_flags("Module.require.flags", 0x9060)?;
            let v = d.utf8_opt("Module.require.version")?;
            d.opt("version", v);
            Ok(())
        })?;
        for (l, role) in [("exports", "Module.exports"), ("opens", "Module.opens")] {
            self.list(l, role, 2, &mut |d| {
                let n = d.named(20, "Module.package")?;
                d.text("package", n);
                d.strict_flags("Module.package.flags", 0x9000)?;
                d.list("to", "Module.to", 2, &mut |d| {
                    let n = d.named(19, "Module.to.module")?;
                    d.text("module", n);
                    Ok(())
                })
            })?;
        }
        self.class_list("uses", "Module.uses", "Module.use")?;
        self.list("provides", "Module.provides", 2, &mut |d| {
            let c = d.class("Module.provide")?;
            d.text("service", c);
            d.class_list("with", "Module.with", "Module.with.class")
        })
    }

    // ------------------------------------------------------------------ method bodies
    fn code(&mut self, depth: usize) -> R<()> {
        self.value("max_stack", 2)?;
        self.value("max_locals", 2)?;
        let n = self.u4("Code.code_length", FK::Len)? as usize;
        if n == 0 || n > 65_535 {
            self.gray.get_or_insert("method body of an impossible length");
        }
        let at = self.p;
        let code = self.take(n)?;
        self.raw("code", code);
        self.bodies += 1;
        // The instructions are reported first but judged last: they only matter if everything else is in order.
        let end = self.p;
        let mark = self.toks.len();
        self.open("bytecode");
        let inside = {
            let (b, p) = (self.b, self.p);
            self.b = &b[..at + n];
            self.p = at;
            let r = self.instructions(at);
            self.b = b;
            self.p = p;
            r
        };
        self.p = end;
        match inside {
            Ok(()) => self.close(),
            Err(r) => {
                self.toks.truncate(mark);
                self.bytecode_reject.get_or_insert(r);
            }
        }
        self.list("exception_table", "Code.exceptions", 2, &mut |d| {
            d.value("start_pc", 2)?;
            d.value("end_pc", 2)?;
            d.value("handler_pc", 2)?;
            let c = d.class_opt("Code.catch")?;
            d.opt("catch", c);
            Ok(())
        })?;
        self.attributes(depth + 1)
    }
    fn jump(&mut self, targets: &mut Vec<i64>, from: usize, width: usize) -> R<()> {
        let v = self.int(width, "jump", FK::Jump)?;
        let rel = if width == 2 { v as u16 as i16 as i64 } else { v as u32 as i32 as i64 };
        self.num("jump", rel);
        targets.push(from as i64 + rel);
        Ok(())
    }
    fn member(&mut self, role: &'static str, tags: &[u8]) -> R<()> {
        let ix = self.idx(role)?;
        match self.ent(ix) {
            Some(e) if tags.contains(&e.tag()) => self.put_member(ix),
            _ => return Err("instruction refers to the wrong kind of member"),
        }
        Ok(())
    }
    fn instructions(&mut self, base: usize) -> R<()> {
        let mut starts: Vec<i64> = Vec::new();
        let mut targets: Vec<i64> = Vec::new();
        while self.p < self.b.len() {
            let pc = self.p - base;
            starts.push(pc as i64);
            self.ops += 1;
            let opcode = self.u1("opcode", FK::Opcode)?;
            self.num("pc", pc as i64);
            let op = &OPS[opcode as usize];
            if op.fmt != Fmt::Wide {
                self.open(op.name);
            }
            match op.fmt {
                Fmt::Undefined => return Err("undefined opcode"),
                Fmt::Plain => (),
                Fmt::Imm8 => {
                    let v = self.u1("bipush", FK::Value)? as i8;
                    self.num("imm", v as i64);
                }
                Fmt::Imm16 => {
                    let v = self.u2("sipush", FK::Value)? as i16;
                    self.num("imm", v as i64);
                }
                Fmt::Load8 | Fmt::Load16 => {
                    let ix = if op.fmt == Fmt::Load8 { self.u1("ldc", FK::Idx)? as u16 } else { self.idx("ldc_w")? };
                    if !self.put_loadable(ix) {
                        return Err("instruction loads a constant that is not loadable");
                    }
                }
                Fmt::Var8 => self.value("var", 1)?,
                Fmt::Var(n) => self.num("var", n as i64),
                Fmt::Inc => {
                    self.value("var", 1)?;
                    let v = self.u1("iinc", FK::Value)? as i8;
                    self.num("inc", v as i64);
                }
                Fmt::Jump16 => self.jump(&mut targets, pc, 2)?,
                Fmt::Jump32 => self.jump(&mut targets, pc, 4)?,
                Fmt::Table | Fmt::Lookup => {
                    let pad = (4 - (self.p - base) % 4) % 4;
                    let off = self.p;
                    self.take(pad)?;
                    if pad > 0 {
                        self.mark("switch.padding", FK::Value, off, pad);
                    }
                    self.jump(&mut targets, pc, 4)?;
                    if op.fmt == Fmt::Table {
                        let low = self.u4("tableswitch.low", FK::Count)? as i32;
                        let high = self.u4("tableswitch.high", FK::Count)? as i32;
                        if low > high {
                            return Err("tableswitch with low above high");
                        }
                        self.num("low", low as i64);
                        self.num("high", high as i64);
                        for _ in low as i64..=high as i64 {
                            self.jump(&mut targets, pc, 4)?;
                        }
                    } else {
                        let n = self.u4("lookupswitch.npairs", FK::Count)? as i32;
                        if n < 0 {
                            return Err("lookupswitch with a negative number of pairs");
                        }
                        for _ in 0..n {
                            let m = self.u4("lookupswitch.match", FK::Value)? as i32;
                            self.num("match", m as i64);
                            self.jump(&mut targets, pc, 4)?;
                        }
                    }
                }
                Fmt::Field => self.member("fieldop", &[9])?,
                Fmt::Method => self.member("invokevirtual", &[10])?,
                Fmt::AnyMethod => self.member("invoke", &[10, 11])?,
                Fmt::IfaceMethod => {
                    self.member("invokeinterface", &[11])?;
                    self.value("count", 1)?;
                    if self.u1("invokeinterface.zero", FK::Value)? != 0 {
                        return Err("non-zero byte after invokeinterface");
                    }
                }
                Fmt::Indy => {
                    let ix = self.idx("invokedynamic")?;
                    match self.ent(ix) {
                        Some(&Ent::Boot(18, a, nt)) => {
                            self.num("bootstrap", a as i64);
                            self.put_name_and_type(nt);
                        }
                        _ => return Err("invokedynamic refers to another kind of constant"),
                    }
                    if self.u2("invokedynamic.zero", FK::Value)? != 0 {
                        return Err("non-zero bytes after invokedynamic");
                    }
                }
                Fmt::NewObj => {
                    let c = self.class("new")?;
                    self.text("class", c);
                }
                Fmt::NewArr => {
                    let t = self.u1("newarray", FK::Tag)?;
                    match NEWARRAY.iter().find(|x| x.0 == t) {
                        Some((_, n)) => {
                            self.toks.push(Tok::Open(n));
                            self.close();
                        }
                        None => return Err("unknown primitive array type"),
                    }
                }
                Fmt::Type | Fmt::MultiArr => {
                    let c = self.class(if op.fmt == Fmt::Type { "typeop" } else { "multianewarray" })?;
                    if c.0.starts_with('[') {
                        self.open("arraytype");
                        self.put_field_desc(&c)?;
                        self.close();
                    } else {
                        self.text("classtype", c);
                    }
                    if op.fmt == Fmt::MultiArr {
                        self.value("dimensions", 1)?;
                    }
                }
                Fmt::Wide => {
                    let inner = self.u1("wide.opcode", FK::Opcode)?;
                    if !widenable(inner) {
                        return Err("wide applied to another opcode");
                    }
                    self.open(OPS[inner as usize].name);
                    self.value("var", 2)?;
                    if inner == 0x84 {
                        let v = self.u2("wide.iinc", FK::Value)? as i16;
                        self.num("inc", v as i64);
                    }
                }
            }
            self.close();
        }
        if targets.iter().any(|t| starts.binary_search(t).is_err()) {
            return Err("jump to something that is not the start of an instruction");
        }
        Ok(())
    }

    // ------------------------------------------------------------------ the class
    fn member_list(&mut self, methods: bool, interface: bool) -> R<()> {
        let mut seen: Vec<(Cow<'i, str>, Cow<'i, str>)> = Vec::new();
        self.open(if methods { "methods" } else { "fields" });
        let count_off = self.p;
        let n = self.u2(if methods { "methods.count" } else { "fields.count" }, FK::Count)?;
        for _ in 0..n {
            let off = self.p;
            self.open("member");
            let flags = self.u2(if methods { "method.flags" } else { "field.flags" }, FK::Flags)?;
            let name = self.utf8(if methods { "method.name" } else { "field.name" })?;
            let desc = self.utf8(if methods { "method.descriptor" } else { "field.descriptor" })?;
            self.num("flags", (flags & if methods { 0x1dff } else { 0x50df }) as i64);
            self.text("name", name.clone());
            if !desc.1 {
                self.owned += desc.0.len() as u64;
            }
            if methods {
                if !method_name(&name.0, interface) {
                    return Err("invalid method name");
                }
                let (params, ret) = method_desc(&desc.0).ok_or("invalid method descriptor")?;
                let init = name.0 == "<init>" || name.0 == "<clinit>";
                if init && ret.is_some() {
                    return Err("initializer that returns something");
                }
                if name.0 == "<clinit>" && self.major >= 51 && !params.is_empty() {
                    return Err("class initializer with parameters");
                }
                self.open("descriptor");
                for (at, t) in &params {
                    self.put_field_type(&desc, *at, t);
                }
                match &ret {
                    None => self.num("void", 1),
                    Some((at, t)) => self.put_field_type(&desc, *at, t),
                }
                let shown = desc.0.to_string();
                self.toks.push(Tok::Str { l: "shown", s: Cow::Owned(shown), plain: false });
                self.close();
            } else {
                if !unqualified(&name.0) {
                    return Err("invalid field name");
                }
                let t = field_desc(&desc.0).ok_or("invalid field descriptor")?;
                self.put_field_type(&desc, 0, &t);
            }
            seen.push((name.0, desc.0));
            self.attributes(0)?;
            self.rec(if methods { "method" } else { "field" }, off, count_off, 2);
            self.close();
        }
        let total = seen.len();
        seen.sort();
        seen.dedup();
        if seen.len() != total {
            return Err(if methods { "duplicate method" } else { "duplicate field" });
        }
        self.close();
        Ok(())
    }
    fn class_name(&mut self, l: &'static str, t: Text<'i>) -> R<()> {
        if !binary_name(&t.0) {
            return Err("array where a class or interface is needed");
        }
        self.text(l, t);
        Ok(())
    }
    fn class_file(&mut self) -> R<()> {
        if self.u4("magic", FK::Value)? != 0xCAFE_BABE {
            return Err("wrong magic number");
        }
        let minor = self.u2("minor", FK::Value)?;
        self.major = self.u2("major", FK::Value)?;
        self.pool()?;
        let flags = self.u2("class.flags", FK::Flags)? & 0xf631;
        let module = flags & 0x8000 != 0;
        self.num("major", self.major as i64);
        self.num("minor", minor as i64);
        self.num("flags", flags as i64);
        if module && self.major < 53 {
            return Err("module flag in an old version");
        }
        if module && flags != 0x8000 {
            return Err("other flags next to the module flag");
        }
        let t = self.class("this_class")?;
        self.class_name("this_class", t)?;
        let sup = self.class_opt("super_class")?;
        let has_super = sup.is_some();
        match sup {
            Some(t) => self.class_name("super_class", t)?,
            None => self.num("super_class", -1),
        }
        let mut others = 0;
        self.list("interfaces", "interfaces.count", 2, &mut |d| {
            let t = d.class("interface")?;
            others += 1;
            d.class_name("interface", t)
        })?;
        let interfaces = others;
        let before = self.toks.len();
        self.member_list(false, false)?;
        let middle = self.toks.len();
        self.member_list(true, flags & 0x0200 != 0)?;
        let members = |t: &[Tok]| t.iter().filter(|t| matches!(t, Tok::Open("member"))).count();
        let (fields, methods) = (members(&self.toks[before..middle]), members(&self.toks[middle..]));
        let at = self.toks.len();
        self.attributes(0)?;
        if self.p != self.b.len() {
            return Err("bytes after the end of the class");
        }
        if module {
            for (there, why) in [(has_super, "module with a superclass"), (interfaces > 0, "module with interfaces"), (fields > 0, "module with fields"), (methods > 0, "module with methods")] {
                if there {
                    return Err(why);
                }
            }
        }
        self.bootstrap_rule(at)
    }
    /// Dynamic constants need exactly one table of bootstrap methods, with an entry for each of them.
    fn bootstrap_rule(&mut self, attributes_at: usize) -> R<()> {
        let mut tables = 0;
        let mut entries = 0;
        let mut depth = 0;
        for t in &self.toks[attributes_at..] {
            match t {
                Tok::Open(l) => {
                    depth += 1;
                    if depth == 3 && *l == "BootstrapMethods" {
                        tables += 1;
                        entries = 0;
                    } else if depth == 4 && *l == "bootstrap" {
                        entries += 1;
                    }
                }
                Tok::Close => depth -= 1,
                _ => (),
            }
        }
        for e in &self.pool {
            if let Ent::Boot(_, a, _) = e {
                if tables != 1 {
                    return Err("dynamic constant without exactly one bootstrap table");
                }
                if *a as usize >= entries {
                    return Err("dynamic constant refers outside of the bootstrap table");
                }
            }
        }
        Ok(())
    }
}

/// Text with so many parameters that it may or may not be taken as a method descriptor.
fn crowded(e: &Ent) -> bool {
    match e {
        Ent::Text { s, .. } if s.starts_with('(') && s.len() > 120 => {
            method_desc(s).is_some_and(|(params, _)| params.iter().map(|(_, t)| if t.dims == 0 && matches!(t.base, b'J' | b'D') { 2 } else { 1 }).sum::<usize>() > 254)
        }
        _ => false,
    }
}

pub fn decode(b: &[u8], with_map: bool) -> Decoded<'_> {
    let mut d = Dec { b, p: 0, toks: Vec::new(), map: with_map.then(Vec::new), recs: Vec::new(), inside: Vec::new(), pool: Vec::new(), major: 0, gray: None, unknown: false, work: Default::default(), bytecode_reject: None, owned: 0, bodies: 0, ops: 0 };
    let reject = d.class_file().err();
    let toks = std::mem::take(&mut d.toks);
    let tags: Vec<u8> = d.pool.iter().map(Ent::tag).collect();
    let owned = d.owned;
    let ok = (0..d.pool.len()).all(|i| d.check_entry(i).is_ok());
    d.unknown |= d.work.get() >= WORK;
    if ok && reject.is_none() && !d.unknown {
        d.work.set(i64::MIN / 2);
        for i in 0..d.pool.len() {
            d.put_constant(i as u16);
        }
    }
    if d.gray.is_none() && d.pool.iter().any(crowded) {
        d.gray = Some("method descriptor with more than 254 parameters");
    }
    let said = |t: &[Tok]| -> u64 {
        t.iter()
            .map(|t| match t {
                Tok::Str { s, .. } => s.len() as u64,
                Tok::Raw { b, .. } => b.len() as u64,
                _ => 0,
            })
            .sum()
    };
    let reach = said(&toks) + said(&d.toks) + (0..d.pool.len()).map(|i| d.reach(i as u16, 0)).sum::<u64>();
    Decoded {
        toks,
        consts: d.toks,
        reject,
        bytecode_reject: d.bytecode_reject,
        gray: d.gray,
        unknown: d.unknown,
        map: d.map.unwrap_or_default(),
        recs: d.recs,
        tags,
        owned,
        reach,
        end: d.p,
        bodies: d.bodies,
        ops: d.ops,
    }
}
