//! The writer nodes of the simulated world: they produce valid class images of every shape.
use crate::optab::{widenable, Fmt, NEWARRAY, OPS};
use crate::src::Src;
use std::collections::BTreeMap;

/// What a writer concentrates on (each run enables a random subset).
#[derive(Clone, Copy, Debug, Default)]
pub struct Mix {
    pub code: bool,
    pub annotations: bool,
    pub odd_text: bool,
    pub module: bool,
    pub constants: bool,
    pub debug_info: bool,
    pub overloads: bool,
    pub dynamic: bool,
    pub stray: bool,
    pub big_pool: bool,
    pub big_front: bool,
    pub big_code: bool,
    pub big_lists: bool,
    pub long_text: bool,
    pub crowd: bool,
}

impl Mix {
    pub fn draw(s: &mut Src) -> Mix {
        Mix {
            code: s.chance(3, 5),
            annotations: s.chance(1, 3),
            odd_text: s.chance(1, 4),
            module: s.chance(1, 8),
            constants: s.chance(1, 3),
            debug_info: s.chance(1, 3),
            overloads: s.chance(1, 3),
            dynamic: s.chance(1, 3),
            stray: s.chance(1, 8),
            big_pool: s.chance(1, 200),
            big_front: s.chance(1, 200),
            big_code: s.chance(1, 150),
            big_lists: s.chance(1, 60),
            long_text: s.chance(1, 60),
            crowd: s.chance(1, 500),
        }
    }
    /// One thing in large quantity.
    pub fn bulk(s: &mut Src) -> Mix {
        let m = Mix::small(s);
        match s.below(6) {
            0 => Mix { big_pool: true, ..m },
            1 => Mix { big_front: true, ..m },
            2 => Mix { big_code: true, code: true, ..m },
            3 => Mix { big_lists: true, ..m },
            4 => Mix { long_text: true, ..m },
            _ => Mix { crowd: true, ..m },
        }
    }
    pub fn small(s: &mut Src) -> Mix {
        Mix { big_pool: false, big_front: false, big_code: false, big_lists: false, long_text: false, crowd: false, ..Mix::draw(s) }
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum C {
    Hole,
    Utf8(Vec<u8>),
    Int(u32),
    Float(u32),
    Long(u64),
    Double(u64),
    One(u8, u16),
    Two(u8, u16, u16),
    Handle(u8, u16),
    Boot(u8, u16, u16),
}

pub fn modified_utf8(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    for c in s.chars() {
        let v = c as u32;
        if v == 0 {
            out.extend([0xc0, 0x80]);
        } else if v < 0x10000 {
            let mut b = [0; 4];
            out.extend(c.encode_utf8(&mut b).as_bytes());
        } else {
            let v = v - 0x10000;
            for u in [0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)] {
                out.extend([0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8]);
            }
        }
    }
    out
}

struct Gen<'a, 't> {
    s: &'a mut Src<'t>,
    m: Mix,
    major: u16,
    pool: Vec<C>,
    seen: BTreeMap<C, u16>,
    boots: u16,
    interface: bool,
    budget: u32,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum At {
    Class,
    Field,
    Method,
    Code,
    Component,
}

type Buf = Vec<u8>;
fn p1(b: &mut Buf, v: u8) {
    b.push(v);
}
fn p2(b: &mut Buf, v: u16) {
    b.extend(v.to_be_bytes());
}
fn p4(b: &mut Buf, v: u32) {
    b.extend(v.to_be_bytes());
}

const IDENTS: [&str; 14] = ["a", "b", "foo", "Bar", "x1", "$", "_", "value", "\u{e9}", "\u{65e5}\u{672c}", "\u{1d4b3}", "n\0l", "<a>", "main"];
/// Names nobody would write by hand but compilers do, or the rules just about allow.
const RARE: [&str; 48] = [
    "this$0", "access$000", "lambda$new$0", "package-info", "module-info", "$VALUES", "$assertionsDisabled", "1", "10Inner", "init", "clinit", "V", "L", "I", "Code", "Lfoo", "a b", " ", "(", ")", "()V", ":", "@", "\\", "-",
    ",", "a,b", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "e\u{301}", "\u{2028}", "\u{a0}", "null", "int", "a\nb", "'\"", "{%s}",
];

impl Gen<'_, '_> {
    fn push(&mut self, c: C) -> u16 {
        let ix = self.pool.len() as u16;
        let wide = matches!(c, C::Long(_) | C::Double(_));
        self.pool.push(c);
        if wide {
            self.pool.push(C::Hole);
        }
        ix
    }
    fn konst(&mut self, c: C) -> u16 {
        if let Some(&ix) = self.seen.get(&c) {
            if self.pool.len() > 65_000 || !self.s.chance(1, 12) {
                return ix;
            }
        }
        let ix = self.push(c.clone());
        self.seen.insert(c, ix);
        ix
    }
    /// An entry that refers to others, written before or after them.
    fn linked(&mut self, f: &mut dyn FnMut(&mut Self) -> C) -> u16 {
        if self.pool.len() < 60_000 && self.s.chance(1, 3) {
            let ix = self.push(C::Hole);
            let c = f(self);
            self.seen.insert(c.clone(), ix);
            self.pool[ix as usize] = c;
            ix
        } else {
            let c = f(self);
            self.konst(c)
        }
    }
    fn utf8(&mut self, s: &str) -> u16 {
        self.konst(C::Utf8(modified_utf8(s)))
    }
    fn class(&mut self, name: &str) -> u16 {
        self.linked(&mut |g| C::One(7, g.utf8(name)))
    }

    // ---------------------------------------------------------------- text
    fn ident(&mut self) -> String {
        if self.m.long_text && self.s.chance(1, 6) {
            let n = self.s.range(100, 3000) as usize;
            let c = *self.s.pick(&["z", "\u{e9}", "\u{1f600}"]);
            return c.repeat(n);
        }
        if self.s.chance(1, if self.m.odd_text { 3 } else { 30 }) {
            return self.s.pick(&RARE).to_string();
        }
        let n = if self.m.odd_text { IDENTS.len() } else { 8 };
        let s = *self.s.pick(&IDENTS[..n]);
        if self.s.chance(1, 6) { format!("{}{}", s, self.s.below(10)) } else { s.to_string() }
    }
    fn method_ident(&mut self) -> String {
        self.ident().replace(['<', '>'], "_")
    }
    fn binary(&mut self) -> String {
        match self.s.below(6) {
            0 => "java/lang/Object".into(),
            1 => "java/lang/String".into(),
            2 => self.ident(),
            3 => format!("{}/{}", self.ident(), self.ident()),
            4 => format!("{}/{}/{}", self.ident(), self.ident(), self.ident()),
            _ => format!("p/{}", self.ident()),
        }
    }
    fn field_desc(&mut self) -> String {
        let dims = match self.s.below(12) {
            0..=7 => 0,
            8..=9 => 1,
            10 => self.s.range(2, 4),
            _ => *self.s.pick(&[255, 254, 128, 5]),
        };
        let base = match self.s.below(12) {
            0 => "I".into(),
            1 => "B".into(),
            2 => "C".into(),
            3 => "D".into(),
            4 => "F".into(),
            5 => "J".into(),
            6 => "S".into(),
            7 => "Z".into(),
            _ => format!("L{};", self.binary()),
        };
        format!("{}{}", "[".repeat(dims as usize), base)
    }
    fn params(&mut self) -> String {
        let n = match self.s.below(12) {
            0..=4 => 0,
            5..=7 => 1,
            8..=9 => 2,
            10 => self.s.range(3, 8),
            _ if self.m.big_lists => self.s.range(50, 120),
            _ => 3,
        };
        (0..n).map(|_| self.field_desc()).collect()
    }
    fn method_desc(&mut self) -> String {
        let p = if self.s.chance(1, 200) {
            // as many as there may be
            let f = *self.s.pick(&["I", "J", "[[D", "La;", "Z"]);
            f.repeat(if f == "J" { 127 } else { *self.s.pick(&[254, 253, 128, 127]) })
        } else {
            self.params()
        };
        let r = if self.s.chance(1, 2) { self.field_desc() } else { "V".into() };
        format!("({}){}", p, r)
    }
    fn free_text(&mut self) -> String {
        match self.s.below(11) {
            0 => String::new(),
            1 => "Test.java".into(),
            2 => "<T:Ljava/lang/Object;>Ljava/util/List<TT;>;".into(),
            3 => "hello world".into(),
            4 if self.m.odd_text => "\u{0}\u{1f600}x\u{ffff}".into(),
            5 if self.m.long_text => "\u{4e2d}".repeat(self.s.range(1, 5000) as usize),
            6 if self.m.long_text => "q".repeat(self.s.range(1, 20000) as usize),
            7 => (*self.s.pick(&[
                "SMAP\nTest.java\nKotlin\n*S Kotlin\n*F\n+ 1 Test.kt\ntest/Test\n*L\n1#1,9:1\n*E\n", "\n", "a\n", "a\r\n", "\t", " ", " a", "a ", "\"", "\\", "a\\", "{}", "%s", "C:\\x\\Test.java", "src/Test.java", ".", "..", "/", "a.", ".a", "-1", "0", "null",
                "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{7ff}", "\u{800}", "\u{2028}", "\u{200b}", "\u{feff}a", "e\u{301}", "\u{fffd}", "\u{fffe}", "\u{d7ff}", "\u{e000}", "\u{1b}[0m",
            ]))
            .into(),
            8 if self.m.odd_text => (*self.s.pick(&["\0", "a\0", "\0a", "a\0\0", "\u{10000}", "\u{10ffff}", "a\u{1f600}", "\u{1f600}a"])).into(),
            9 => {
                // something in front of or behind an ordinary text
                let (t, x) = (self.ident(), *self.s.pick(&["\n", " ", "\t", "\r", "\u{1}", "\u{7f}", ";", "/", "[", "."]));
                if self.s.chance(1, 2) { t + x } else { x.to_string() + &t }
            }
            _ => self.ident(),
        }
    }
    fn module_name(&mut self) -> String {
        match self.s.below(8) {
            0 => "java.base".into(),
            1 => "m\\:x\\@y\\\\".into(),
            2 => "a.b[c;d/e".into(),
            3 => (*self.s.pick(&[" ", "\u{20}x", "\\\\", "\\:", "\\@", "a\\\\\\\\b", "\u{7f}\u{80}", "\u{ffff}", "\u{1f600}", "a b.c", "~!#$%^&*()"])).into(),
            _ => self.ident().chars().map(|c| if c < ' ' || "\\:@".contains(c) { '0' } else { c }).collect(),
        }
    }

    // ---------------------------------------------------------------- constants
    fn string(&mut self) -> u16 {
        if self.s.chance(1, 5) {
            // text that only exists in the image: unpaired surrogates
            let raw: Vec<u8> = match self.s.below(3) {
                0 => vec![0xed, 0xaa, 0xb9, 0xeb, 0xab, 0xb4],
                1 => vec![0x41, 0xed, 0xb0, 0x80],
                _ => vec![0xed, 0xa0, 0x80],
            };
            return self.linked(&mut |g| C::One(8, g.konst(C::Utf8(raw.clone()))));
        }
        let t = self.free_text();
        self.linked(&mut |g| C::One(8, g.utf8(&t)))
    }
    fn int(&mut self) -> u16 {
        let v = self.s.edgy32();
        self.konst(C::Int(v))
    }
    fn float(&mut self) -> u16 {
        let v = match self.s.below(6) {
            0 => 0,
            1 => 1.0f32.to_bits(),
            2 => (-0.0f32).to_bits(),
            3 => 0x7fc0_0001,
            4 => 0x7f80_0001,
            _ => self.s.edgy32(),
        };
        self.konst(C::Float(v))
    }
    fn long(&mut self) -> u16 {
        let v = self.s.edgy64();
        self.konst(C::Long(v))
    }
    fn double(&mut self) -> u16 {
        let v = match self.s.below(5) {
            0 => 0,
            1 => 1.5f64.to_bits(),
            2 => 0x7ff0_0000_0000_0001,
            _ => self.s.edgy64(),
        };
        self.konst(C::Double(v))
    }
    fn literal(&mut self) -> u16 {
        match self.s.below(5) {
            0 => self.int(),
            1 => self.float(),
            2 => self.long(),
            3 => self.double(),
            _ => self.string(),
        }
    }
    fn name_and_type(&mut self, name: &str, desc: &str) -> u16 {
        self.linked(&mut |g| {
            let (n, d) = (g.utf8(name), g.utf8(desc));
            C::Two(12, n, d)
        })
    }
    fn any_class(&mut self) -> u16 {
        let n = if self.s.chance(1, 6) { format!("[{}", self.field_desc().trim_start_matches('[')) } else { self.binary() };
        self.class(&n)
    }
    fn plain_class(&mut self) -> u16 {
        let n = self.binary();
        self.class(&n)
    }
    fn member(&mut self, tag: u8) -> u16 {
        let (n, d) = match tag {
            9 => (self.ident(), self.field_desc()),
            _ if self.s.chance(1, 6) => ("<init>".into(), format!("({})V", self.params())),
            _ => (self.method_ident(), self.method_desc()),
        };
        self.linked(&mut |g| {
            let c = g.any_class();
            let nt = g.name_and_type(&n, &d);
            C::Two(tag, c, nt)
        })
    }
    fn handle(&mut self) -> u16 {
        let k = self.s.range(1, 9) as u8;
        let tag = match k {
            1..=4 => 9,
            5 | 8 => 10,
            9 => 11,
            _ if self.major >= 52 => 10 + self.s.below(2) as u8,
            _ => 10,
        };
        self.linked(&mut |g| C::Handle(k, g.member(tag)))
    }
    fn method_type(&mut self) -> u16 {
        let d = self.method_desc();
        self.linked(&mut |g| C::One(16, g.utf8(&d)))
    }
    fn dynamic(&mut self, tag: u8) -> u16 {
        if self.boots == 0 {
            let long = self.s.chance(1, if self.m.big_lists || self.m.crowd { 4 } else { 400 });
            self.boots = if long { *self.s.pick(&[255u16, 256, 257, 4096, 4097, 32_768, 65_535]) } else { 1 + self.s.below(3) as u16 };
        }
        let a = if self.s.chance(1, 3) { self.boots - 1 } else { self.s.below(self.boots as u32) as u16 };
        let n = self.method_ident();
        let d = if tag == 17 { self.field_desc() } else { self.method_desc() };
        self.linked(&mut |g| C::Boot(tag, a, g.name_and_type(&n, &d)))
    }
    fn loadable(&mut self) -> u16 {
        match self.s.below(9) {
            0..=4 => self.literal(),
            5 => self.any_class(),
            6 if self.major >= 51 => self.handle(),
            7 if self.major >= 51 => self.method_type(),
            8 if self.m.dynamic && self.major >= 55 => self.dynamic(17),
            _ => self.string(),
        }
    }
    fn module(&mut self) -> u16 {
        let n = self.module_name();
        self.linked(&mut |g| C::One(19, g.utf8(&n)))
    }
    fn package(&mut self) -> u16 {
        let n = self.binary();
        self.linked(&mut |g| C::One(20, g.utf8(&n)))
    }
    fn stray_constant(&mut self) {
        match self.s.below(14) {
            0 => {
                self.int();
            }
            1 => {
                self.long();
            }
            2 => {
                self.double();
            }
            3 => {
                self.string();
            }
            4 => {
                let t = 9 + self.s.below(3) as u8;
                self.member(t);
            }
            5 => {
                let (n, d) = (self.ident(), self.field_desc());
                self.name_and_type(&n, &d);
            }
            6 => {
                // a name-and-type that nothing refers to may have any text as its descriptor
                let (n, d) = (self.ident(), self.free_text());
                self.name_and_type(&n, &d);
            }
            7 => {
                self.any_class();
            }
            8 if self.major >= 53 => {
                self.module();
            }
            9 if self.major >= 53 => {
                self.package();
            }
            10 if self.major >= 51 => {
                self.handle();
            }
            11 if self.major >= 51 => {
                self.method_type();
            }
            12 if self.major >= 51 && self.m.dynamic => {
                self.dynamic(18);
            }
            13 if self.major >= 55 && self.m.dynamic => {
                self.dynamic(17);
            }
            _ => {
                self.float();
            }
        }
    }

    // ---------------------------------------------------------------- attributes
    fn attr(&mut self, out: &mut Buf, name: &str, body: Buf) {
        let n = self.utf8(name);
        p2(out, n);
        p4(out, body.len() as u32);
        out.extend(body);
    }
    fn count(&mut self) -> u32 {
        let max = if self.m.big_lists { 300 } else { 8 };
        self.s.small(max)
    }
    /// A value inside a value inside a value.
    fn deep_element(&mut self, b: &mut Buf, left: u32) {
        if left == 0 {
            return self.element(b, 5);
        }
        if self.s.chance(1, 2) {
            p1(b, b'[');
            p2(b, 1);
        } else {
            p1(b, b'@');
            let (t, n) = (self.utf8("Lp/Nest;"), self.utf8("v"));
            p2(b, t);
            p2(b, 1);
            p2(b, n);
        }
        self.deep_element(b, left - 1);
    }
    fn annotation(&mut self, b: &mut Buf, depth: u32) {
        let d = format!("L{};", self.binary());
        let t = self.utf8(&d);
        p2(b, t);
        let n = if depth > 3 { self.s.below(2) } else { self.s.below(4) };
        p2(b, n as u16);
        for _ in 0..n {
            let name = self.ident();
            let n = self.utf8(&name);
            p2(b, n);
            if depth == 0 && self.s.chance(1, 60) {
                let n = *self.s.pick(&[8, 16, 17, 31, 33, 40, 46]);
                self.deep_element(b, n);
            } else {
                self.element(b, depth);
            }
        }
    }
    fn element(&mut self, b: &mut Buf, depth: u32) {
        let t = *self.s.pick(b"BCDFIJSZsec@[");
        let t = if depth > 4 && matches!(t, b'@' | b'[') { b'I' } else { t };
        p1(b, t);
        match t {
            b'D' => {
                let c = self.double();
                p2(b, c)
            }
            b'F' => {
                let c = self.float();
                p2(b, c)
            }
            b'J' => {
                let c = self.long();
                p2(b, c)
            }
            b's' => {
                let s = self.free_text();
                let c = self.utf8(&s);
                p2(b, c)
            }
            b'e' => {
                let d = format!("L{};", self.binary());
                let n = self.ident();
                let (x, y) = (self.utf8(&d), self.utf8(&n));
                p2(b, x);
                p2(b, y);
            }
            b'c' => {
                let d = if self.s.chance(1, 4) { "V".into() } else { self.field_desc() };
                let c = self.utf8(&d);
                p2(b, c)
            }
            b'@' => self.annotation(b, depth + 1),
            b'[' => {
                let n = self.s.below(4);
                p2(b, n as u16);
                for _ in 0..n {
                    self.element(b, depth + 1);
                }
            }
            _ => {
                let c = self.int();
                p2(b, c)
            }
        }
    }
    fn type_annotation(&mut self, b: &mut Buf) {
        let t = *self.s.pick(&[
            0x00u8, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b,
        ]);
        p1(b, t);
        match t {
            0x00 | 0x01 | 0x16 => p1(b, self.s.u8()),
            0x10 | 0x17 | 0x42..=0x46 => p2(b, self.s.edgy16()),
            0x11 | 0x12 => {
                p1(b, self.s.u8());
                p1(b, self.s.u8());
            }
            0x13..=0x15 => (),
            0x40 | 0x41 => {
                let n = self.count();
                p2(b, n as u16);
                for _ in 0..3 * n {
                    p2(b, self.s.edgy16());
                }
            }
            _ => {
                p2(b, self.s.edgy16());
                p1(b, self.s.u8());
            }
        }
        let n = if self.m.big_lists && self.s.chance(1, 5) { self.s.range(100, 255) } else { self.s.below(4) };
        p1(b, n as u8);
        for _ in 0..n {
            p1(b, self.s.below(4) as u8);
            p1(b, self.s.u8());
        }
        self.annotation(b, 0);
    }
    fn verification(&mut self, b: &mut Buf) {
        let t = self.s.below(9) as u8;
        p1(b, t);
        if t == 7 {
            let c = self.any_class();
            p2(b, c);
        } else if t == 8 {
            p2(b, self.s.edgy16());
        }
    }
    fn frames(&mut self) -> Buf {
        let mut b = Buf::new();
        let n = self.count();
        p2(&mut b, n as u16);
        for _ in 0..n {
            let t = match self.s.below(7) {
                0 => self.s.below(64),
                1 => self.s.range(64, 127),
                2 => 247,
                3 => self.s.range(248, 250),
                4 => 251,
                5 => self.s.range(252, 254),
                _ => 255,
            } as u8;
            p1(&mut b, t);
            if t >= 247 {
                p2(&mut b, self.s.edgy16());
            }
            match t {
                64..=127 | 247 => self.verification(&mut b),
                252..=254 => {
                    for _ in 0..t - 251 {
                        self.verification(&mut b);
                    }
                }
                255 => {
                    for _ in 0..2 {
                        let k = self.s.below(4);
                        p2(&mut b, k as u16);
                        for _ in 0..k {
                            self.verification(&mut b);
                        }
                    }
                }
                _ => (),
            }
        }
        b
    }
    fn attribute(&mut self, out: &mut Buf, kind: u32, depth: u32) {
        let mut b = Buf::new();
        let name = match kind {
            0 => {
                let c = self.literal();
                p2(&mut b, c);
                "ConstantValue"
            }
            1 => {
                let c = self.code_attribute(depth);
                b = c;
                "Code"
            }
            2 => {
                b = self.frames();
                "StackMapTable"
            }
            3 | 25 | 26 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    let c = self.plain_class();
                    p2(&mut b, c);
                }
                match kind {
                    3 => "Exceptions",
                    25 => "NestMembers",
                    _ => "PermittedSubclasses",
                }
            }
            4 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    let c = self.plain_class();
                    p2(&mut b, c);
                    let o = if self.s.chance(1, 2) { self.plain_class() } else { 0 };
                    p2(&mut b, o);
                    let i = if self.s.chance(1, 2) {
                        let t = self.ident();
                        self.utf8(&t)
                    } else {
                        0
                    };
                    p2(&mut b, i);
                    p2(&mut b, self.s.u16());
                }
                "InnerClasses"
            }
            5 => {
                let c = self.plain_class();
                p2(&mut b, c);
                let m = if self.s.chance(1, 2) {
                    let (n, d) = (self.method_ident(), self.method_desc());
                    self.name_and_type(&n, &d)
                } else {
                    0
                };
                p2(&mut b, m);
                "EnclosingMethod"
            }
            6 => "Synthetic",
            7 => "Deprecated",
            8 | 9 => {
                let t = self.free_text();
                let c = self.utf8(&t);
                p2(&mut b, c);
                if kind == 8 { "Signature" } else { "SourceFile" }
            }
            10 => {
                let t = self.free_text();
                b = modified_utf8(&t);
                if self.m.long_text && !b.is_empty() && self.s.chance(1, 2) {
                    // the one text that may be longer than a constant
                    let want = *self.s.pick(&[65_535usize, 65_536, 70_000, 140_000]);
                    b = b.repeat(want.div_ceil(b.len()));
                }
                "SourceDebugExtension"
            }
            11 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..2 * n {
                    p2(&mut b, self.s.edgy16());
                }
                "LineNumberTable"
            }
            12 | 13 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    p2(&mut b, self.s.edgy16());
                    p2(&mut b, self.s.edgy16());
                    let t = self.ident();
                    let c = self.utf8(&t);
                    p2(&mut b, c);
                    let t = if kind == 12 { self.field_desc() } else { self.free_text() };
                    let c = self.utf8(&t);
                    p2(&mut b, c);
                    p2(&mut b, self.s.edgy16());
                }
                if kind == 12 { "LocalVariableTable" } else { "LocalVariableTypeTable" }
            }
            14 | 15 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    self.annotation(&mut b, 0);
                }
                if kind == 14 { "RuntimeVisibleAnnotations" } else { "RuntimeInvisibleAnnotations" }
            }
            16 | 17 => {
                let n = if self.m.big_lists && self.s.chance(1, 4) { self.s.range(128, 255) } else { self.s.below(4) };
                p1(&mut b, n as u8);
                for _ in 0..n {
                    let k = if n > 100 { self.s.below(2) } else { self.s.below(4) };
                    p2(&mut b, k as u16);
                    for _ in 0..k {
                        self.annotation(&mut b, 0);
                    }
                }
                if kind == 16 { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" }
            }
            18 | 19 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    self.type_annotation(&mut b);
                }
                if kind == 18 { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }
            }
            20 => {
                self.element(&mut b, 0);
                "AnnotationDefault"
            }
            21 => {
                let n = if self.m.big_lists && self.s.chance(1, 4) { self.s.range(128, 255) } else { self.s.below(4) };
                p1(&mut b, n as u8);
                for _ in 0..n {
                    let c = if self.s.chance(2, 3) {
                        let t = self.ident();
                        self.utf8(&t)
                    } else {
                        0
                    };
                    p2(&mut b, c);
                    p2(&mut b, *self.s.pick(&[0u16, 0x10, 0x1000, 0x8000, 0x9010]));
                }
                "MethodParameters"
            }
            22 => {
                self.module_attribute(&mut b);
                "Module"
            }
            23 => {
                let n = self.count();
                p2(&mut b, n as u16);
                for _ in 0..n {
                    let c = self.package();
                    p2(&mut b, c);
                }
                "ModulePackages"
            }
            24 | 27 => {
                let c = self.plain_class();
                p2(&mut b, c);
                if kind == 24 { "ModuleMainClass" } else { "NestHost" }
            }
            28 => {
                let n = self.s.below(4);
                p2(&mut b, n as u16);
                for _ in 0..n {
                    let t = self.ident();
                    let c = self.utf8(&t);
                    p2(&mut b, c);
                    let t = self.field_desc();
                    let c = self.utf8(&t);
                    p2(&mut b, c);
                    let a = self.attributes(At::Component, depth + 1);
                    b.extend(a);
                }
                "Record"
            }
            29 => {
                let n = self.s.below(20);
                for _ in 0..n {
                    p1(&mut b, self.s.u8());
                }
                if self.m.long_text && n > 0 && self.s.chance(1, 3) {
                    b = b.repeat(100_000 / n as usize);
                }
                let names = ["Custom", "org.x.Unknown", "code", "Code ", "", "ScalaSig", "StackMap", "Deprecated2", "Nesthost", "signature"];
                *self.s.pick(&names)
            }
            _ => unreachable!(),
        };
        self.attr(out, name, b);
    }
    fn module_attribute(&mut self, b: &mut Buf) {
        let opt_text = |g: &mut Self| {
            if g.s.chance(1, 2) {
                let t = g.free_text();
                g.utf8(&t)
            } else {
                0
            }
        };
        let n = self.module();
        p2(b, n);
        p2(b, *self.s.pick(&[0u16, 0x20, 0x1000, 0x8000]));
        let v = opt_text(self);
        p2(b, v);
        let n = self.count();
        p2(b, n as u16);
        for _ in 0..n {
            let m = self.module();
            p2(b, m);
            p2(b, *self.s.pick(&[0u16, 0x20, 0x40, 0x60, 0x1000, 0x8000]));
            let v = opt_text(self);
            p2(b, v);
        }
        for _ in 0..2 {
            let n = self.count();
            p2(b, n as u16);
            for _ in 0..n {
                let m = self.package();
                p2(b, m);
                p2(b, *self.s.pick(&[0u16, 0x1000, 0x8000]));
                let k = self.s.below(3);
                p2(b, k as u16);
                for _ in 0..k {
                    let m = self.module();
                    p2(b, m);
                }
            }
        }
        let n = self.count();
        p2(b, n as u16);
        for _ in 0..n {
            let c = self.plain_class();
            p2(b, c);
        }
        let n = self.s.below(4);
        p2(b, n as u16);
        for _ in 0..n {
            let c = self.plain_class();
            p2(b, c);
            let k = self.s.below(3);
            p2(b, k as u16);
            for _ in 0..k {
                let c = self.plain_class();
                p2(b, c);
            }
        }
    }
    fn attributes(&mut self, at: At, depth: u32) -> Buf {
        let mut kinds: Vec<u32> = Vec::new();
        let m = self.m;
        if self.budget > 0 {
            let mut cands: Vec<(u32, u32)> = vec![(29, 12)];
            match at {
                At::Class => {
                    cands.extend([(9, 3), (8, 6), (4, 6), (5, 8), (7, 12), (6, 12), (10, 8), (25, 8), (27, 8), (26, 8), (28, 5)]);
                    if m.module {
                        cands.extend([(22, 2), (23, 2), (24, 2)]);
                    }
                }
                At::Field => cands.extend([(0, 3), (8, 5), (6, 8), (7, 8)]),
                At::Method => {
                    cands.extend([(3, 3), (8, 5), (6, 8), (7, 8), (20, 6), (21, 5)]);
                    if m.annotations {
                        cands.extend([(16, 3), (17, 3)]);
                    }
                    if m.code {
                        cands.push((1, 1));
                    }
                }
                At::Code => {
                    cands.extend([(2, 2)]);
                    if m.debug_info {
                        cands.extend([(11, 2), (12, 2), (13, 3)]);
                    }
                    if m.annotations {
                        cands.extend([(18, 4), (19, 4)]);
                    }
                }
                At::Component => cands.extend([(8, 3)]),
            }
            if m.annotations && at != At::Code {
                cands.extend([(14, 3), (15, 3), (18, 5), (19, 5)]);
            }
            for (k, den) in cands {
                // (1, 1) would make every method carry code; two out of three is enough
                if if den == 1 { self.s.chance(2, 3) } else { self.s.chance(1, den) } {
                    kinds.push(k);
                }
            }
            if m.stray && self.s.chance(1, 3) {
                let k = self.s.below(30);
                let nested = k == 1 || k == 28;
                if !(nested && depth > 3) {
                    kinds.push(k);
                }
            }
            if kinds.len() > 1 && self.s.chance(1, 3) {
                let r = self.s.index(kinds.len());
                kinds.rotate_left(r);
            }
        }
        self.budget = self.budget.saturating_sub(kinds.len() as u32);
        let mut body = Buf::new();
        let mut n = 0u16;
        for k in kinds {
            let need = match k {
                22..=24 => 53,
                _ => 0,
            };
            if self.major < need {
                continue;
            }
            self.attribute(&mut body, k, depth);
            n += 1;
        }
        let mut out = Buf::new();
        p2(&mut out, n);
        out.extend(body);
        out
    }

    // ---------------------------------------------------------------- code
    fn code_attribute(&mut self, depth: u32) -> Buf {
        let mut b = Buf::new();
        p2(&mut b, self.s.edgy16());
        p2(&mut b, self.s.edgy16());
        let code = self.code();
        p4(&mut b, code.len() as u32);
        b.extend(&code);
        let n = if self.s.chance(1, 3) { self.count() } else { 0 };
        p2(&mut b, n as u16);
        for _ in 0..n {
            for _ in 0..3 {
                p2(&mut b, self.s.below(code.len() as u32 + 1) as u16);
            }
            let c = if self.s.chance(1, 2) { self.plain_class() } else { 0 };
            p2(&mut b, c);
        }
        let a = self.attributes(At::Code, depth + 1);
        b.extend(a);
        b
    }
    fn code(&mut self) -> Buf {
        enum I {
            Done(Buf),
            Jump(u8),
            Table(bool, u32),
        }
        let defined: Vec<u8> = (0..=255u8).filter(|o| OPS[*o as usize].fmt != Fmt::Undefined).collect();
        let n = 1 + self.s.small(if self.m.big_lists { 400 } else { 60 });
        let mut ins: Vec<I> = Vec::new();
        // some bodies are all about one family of instructions
        let family = self.s.below(6);
        for _ in 0..n {
            let opcode = match family {
                1 => *self.s.pick(&[0xb2u8, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbd, 0xc0, 0xc1, 0xc5, 0x12, 0x13, 0x14]),
                2 => *self.s.pick(&[0xa7u8, 0xa8, 0xaa, 0xab, 0xc6, 0xc7, 0xc8, 0xc9, 0x99, 0xa6, 0xc4, 0x00]),
                _ => *self.s.pick(&defined),
            };
            let mut b = vec![opcode];
            match OPS[opcode as usize].fmt {
                Fmt::Plain | Fmt::Var(_) => (),
                Fmt::Imm8 | Fmt::Var8 => p1(&mut b, self.s.u8()),
                Fmt::Imm16 => p2(&mut b, self.s.edgy16()),
                Fmt::Load8 => {
                    let c = self.loadable();
                    if c < 256 {
                        p1(&mut b, c as u8);
                    } else {
                        b = vec![0x13];
                        p2(&mut b, c);
                    }
                }
                Fmt::Load16 => {
                    let c = self.loadable();
                    p2(&mut b, c);
                }
                Fmt::Inc => {
                    p1(&mut b, self.s.u8());
                    p1(&mut b, self.s.u8());
                }
                Fmt::Jump16 | Fmt::Jump32 => {
                    ins.push(I::Jump(opcode));
                    continue;
                }
                Fmt::Table | Fmt::Lookup => {
                    let k = self.s.below(5);
                    ins.push(I::Table(opcode == 0xaa, k));
                    continue;
                }
                Fmt::Field => {
                    let c = self.member(9);
                    p2(&mut b, c);
                }
                Fmt::Method => {
                    let c = self.member(10);
                    p2(&mut b, c);
                }
                Fmt::AnyMethod => {
                    let t = 10 + self.s.below(2) as u8;
                    let c = self.member(t);
                    p2(&mut b, c);
                }
                Fmt::IfaceMethod => {
                    let c = self.member(11);
                    p2(&mut b, c);
                    let n = if self.s.chance(1, 4) { 0 } else { self.s.u8() };
                    p1(&mut b, n);
                    p1(&mut b, 0);
                }
                Fmt::Indy => {
                    if self.major < 51 || !self.m.dynamic {
                        b = vec![0];
                    } else {
                        let c = self.dynamic(18);
                        p2(&mut b, c);
                        p2(&mut b, 0);
                    }
                }
                Fmt::NewObj | Fmt::Type => {
                    let c = self.any_class();
                    p2(&mut b, c);
                }
                Fmt::NewArr => p1(&mut b, self.s.pick(&NEWARRAY).0),
                Fmt::Wide => {
                    let all: Vec<u8> = (0..=255u8).filter(|o| widenable(*o)).collect();
                    let inner = *self.s.pick(&all);
                    p1(&mut b, inner);
                    p2(&mut b, self.s.edgy16());
                    if inner == 0x84 {
                        p2(&mut b, self.s.edgy16());
                    }
                }
                Fmt::MultiArr => {
                    let c = self.any_class();
                    p2(&mut b, c);
                    p1(&mut b, self.s.u8());
                }
                Fmt::Undefined => unreachable!(),
            }
            ins.push(I::Done(b));
        }
        if self.m.big_code {
            let pad = *self.s.pick(&[32_700u32, 32_760, 33_000, 60_000]);
            let at = self.s.index(ins.len() + 1);
            if self.s.chance(1, 3) {
                ins.splice(at..at, (0..pad / 3).map(|i| I::Jump([0xa7, 0x99, 0xc6][i as usize % 3])));
            } else {
                ins.splice(at..at, (0..pad).map(|i| I::Done(vec![(i % 16) as u8])));
            }
        }
        // something right where a number changes its length
        if !ins.is_empty() && self.s.chance(1, if self.m.big_code { 2 } else { 25 }) {
            let size = |at: usize, i: &I| match i {
                I::Done(b) => b.len(),
                I::Jump(o) if *o >= 0xc8 => 5,
                I::Jump(_) => 3,
                I::Table(table, k) => 1 + (3 - at % 4) + if *table { 12 + 4 * (*k as usize + 1) } else { 8 + 8 * *k as usize },
            };
            let tables: Vec<usize> = (0..ins.len()).filter(|i| matches!(ins[*i], I::Table(..))).collect();
            let k = match self.s.pick_some(&tables) {
                Some(k) if self.s.chance(2, 3) => *k,
                _ => self.s.index(ins.len()),
            };
            let edge = if self.m.big_code { *self.s.pick(&[32_768usize, 65_535, 65_520]) } else { *self.s.pick(&[128usize, 256]) };
            let goal = if edge > 60_000 { 65_532 - size(0, &ins[k]) } else { edge + 4 } - self.s.index(9);
            let before: usize = ins[..k].iter().fold(0, |at, i| at + size(at, i));
            if before <= goal {
                if edge > 60_000 {
                    ins.truncate(k + 1);
                }
                let at = self.s.index(k + 1);
                ins.splice(at..at, (0..goal - before).map(|_| I::Done(vec![0])));
                // switches in front of it may have moved
                let k = k + (goal - before);
                let now: usize = ins[..k].iter().fold(0, |at, i| at + size(at, i));
                if now > goal {
                    ins.drain(at..(at + now - goal).min(k));
                }
                let now: usize = ins.iter().fold(0, |at, i| at + size(at, i));
                if now > 65_535 {
                    ins.truncate(1);
                } else if edge > 60_000 && self.s.chance(1, 2) {
                    // as long as a body may be
                    ins.extend((now..65_535).map(|_| I::Done(vec![0])));
                }
            }
        }
        // layout
        let mut offs: Vec<usize> = Vec::new();
        let mut at = 0usize;
        for i in &ins {
            offs.push(at);
            at += match i {
                I::Done(b) => b.len(),
                I::Jump(o) if *o >= 0xc8 => 5,
                I::Jump(_) => 3,
                I::Table(table, k) => {
                    let pad = 3 - at % 4;
                    1 + pad + if *table { 12 + 4 * (*k as usize + 1) } else { 8 + 8 * *k as usize }
                }
            };
        }
        let mut out = Buf::new();
        for (n, i) in ins.iter().enumerate() {
            let here = offs[n];
            debug_assert_eq!(here, out.len());
            let target = |s: &mut Src, narrow: bool| {
                let t = match s.below(4) {
                    0 => n,
                    1 => 0,
                    2 => offs.len() - 1,
                    _ => s.index(offs.len()),
                };
                let d = offs[t] as i64 - here as i64;
                if narrow && i16::try_from(d).is_err() { 0 } else { d as i32 }
            };
            match i {
                I::Done(b) => out.extend(b),
                I::Jump(o) => {
                    p1(&mut out, *o);
                    if *o >= 0xc8 {
                        let t = target(self.s, false);
                        p4(&mut out, t as u32);
                    } else {
                        let t = target(self.s, true);
                        p2(&mut out, t as i16 as u16);
                    }
                }
                I::Table(table, k) => {
                    p1(&mut out, if *table { 0xaa } else { 0xab });
                    let fill = if self.s.chance(1, 8) { self.s.u8() } else { 0 };
                    while out.len() % 4 != 0 {
                        p1(&mut out, fill);
                    }
                    let t = target(self.s, false);
                    p4(&mut out, t as u32);
                    if *table {
                        let low = match self.s.below(4) {
                            0 => 0,
                            1 => i32::MIN,
                            2 => i32::MAX - *k as i32,
                            _ => (self.s.edgy32() as i32).min(i32::MAX - *k as i32),
                        };
                        p4(&mut out, low as u32);
                        p4(&mut out, (low + *k as i32) as u32);
                        for _ in 0..=*k {
                            let t = target(self.s, false);
                            p4(&mut out, t as u32);
                        }
                    } else {
                        p4(&mut out, *k);
                        for _ in 0..*k {
                            p4(&mut out, self.s.edgy32());
                            let t = target(self.s, false);
                            p4(&mut out, t as u32);
                        }
                    }
                }
            }
        }
        out
    }

    // ---------------------------------------------------------------- the class
    fn members(&mut self, methods: bool) -> Buf {
        let max = if self.m.big_lists { 60 } else { 6 };
        if self.m.crowd && self.s.chance(1, 2) {
            return self.crowd(methods);
        }
        let want = self.s.small(max);
        let mut used: Vec<(String, String)> = Vec::new();
        let mut body = Buf::new();
        for _ in 0..want {
            let (name, desc) = if methods {
                let (n, mut d) = match self.s.below(8) {
                    0 => ("<clinit>".to_string(), "()V".to_string()),
                    1 | 2 if !self.interface => ("<init>".to_string(), format!("({})V", self.params())),
                    _ if self.m.overloads && !used.is_empty() => {
                        let u = self.s.index(used.len());
                        let n = used[u].0.clone();
                        let d = match n.as_str() {
                            "<clinit>" => "()V".to_string(),
                            "<init>" => format!("({})V", self.params()),
                            _ => self.method_desc(),
                        };
                        (n, d)
                    }
                    _ => (self.method_ident(), self.method_desc()),
                };
                if n == "<clinit>" && self.major < 51 && self.s.chance(1, 3) {
                    d = format!("({})V", self.params());
                }
                (n, d)
            } else if self.m.overloads && !used.is_empty() && self.s.chance(1, 2) {
                let u = self.s.index(used.len());
                (used[u].0.clone(), self.field_desc())
            } else {
                (self.ident(), self.field_desc())
            };
            if used.contains(&(name.clone(), desc.clone())) {
                continue;
            }
            p2(&mut body, self.s.u16());
            let (n, d) = (self.utf8(&name), self.utf8(&desc));
            p2(&mut body, n);
            p2(&mut body, d);
            let a = self.attributes(if methods { At::Method } else { At::Field }, 0);
            body.extend(a);
            used.push((name, desc));
        }
        let mut out = Buf::new();
        p2(&mut out, used.len() as u16);
        out.extend(body);
        out
    }
    /// A great many members, all different.
    fn crowd(&mut self, methods: bool) -> Buf {
        let want = *self.s.pick(&[256u32, 1000, 8192, 16384, 32768, 40000, 65535]);
        let types: Vec<u16> = (0..200u32)
            .map(|k| {
                let t = format!("{}{}", "[".repeat(k as usize / 50), ["I".to_string(), "J".into(), format!("Lc{};", k)][k as usize % 3]);
                let t = if k % 3 < 2 { format!("{}Lt{};", "[".repeat(k as usize % 5), k) } else { t };
                self.utf8(&if methods { format!("({})V", t) } else { t })
            })
            .collect();
        let mut out = Buf::new();
        p2(&mut out, want as u16);
        for k in 0..want {
            let n = self.utf8(&format!("m{}", k / 200));
            p2(&mut out, (k % 7) as u16);
            p2(&mut out, n);
            p2(&mut out, types[k as usize % 200]);
            p2(&mut out, 0);
        }
        out
    }
    fn bootstrap_attribute(&mut self) -> Buf {
        let mut b = Buf::new();
        p2(&mut b, self.boots);
        let mut h = 0;
        for k in 0..self.boots {
            // of a great many most are alike
            if k > 100 {
                p2(&mut b, h);
                p2(&mut b, 0);
                continue;
            }
            h = self.handle();
            p2(&mut b, h);
            let n = self.s.below(4);
            p2(&mut b, n as u16);
            for _ in 0..n {
                let c = self.loadable();
                p2(&mut b, c);
            }
        }
        b
    }
    /// Constants without a use, up to a pool of exactly the given length.
    fn fill(&mut self, upto: usize) {
        if self.pool.len() + 2 > upto {
            return;
        }
        let kind = self.s.below(6);
        let text = self.utf8("fill");
        let mut v = 1_000_000u32;
        while self.pool.len() < upto {
            v += 1;
            let left = upto - self.pool.len();
            self.push(match kind {
                0 => C::Utf8(Vec::new()),
                1 if left > 1 => C::Long(v as u64),
                2 => C::One(8, text),
                3 => C::One(7, text),
                4 if left == 2 => C::Double(v as u64),
                4 => C::Utf8(vec![b'a' + (v % 26) as u8]),
                _ => C::Int(v),
            });
        }
    }
    fn image(&mut self) -> Buf {
        if self.m.big_front {
            // everything that matters has a large index
            let upto = *self.s.pick(&[127usize, 250, 255, 256, 32_600, 32_767, 32_768, 60_000]);
            self.fill(upto);
        }
        let module_class = self.m.module && self.major >= 53 && self.s.chance(2, 3);
        if self.m.constants {
            for _ in 0..self.s.below(8) {
                self.stray_constant();
            }
        }
        let flags = if module_class {
            // bits without a meaning for classes do not matter
            0x8000 | *self.s.pick(&[0u16, 0, 0, 0x0008])
        } else {
            let mut f = self.s.u16() & !0x8000;
            if self.interface {
                f |= 0x0200;
            } else {
                f &= !0x0200;
            }
            f
        };
        let mut body = Buf::new();
        p2(&mut body, flags);
        let this = self.plain_class();
        p2(&mut body, this);
        if module_class {
            p2(&mut body, 0);
            for _ in 0..3 {
                p2(&mut body, 0);
            }
        } else {
            let sup = if self.s.chance(1, 8) { 0 } else { self.plain_class() };
            p2(&mut body, sup);
            let n = self.count();
            p2(&mut body, n as u16);
            for _ in 0..n {
                let c = self.plain_class();
                p2(&mut body, c);
            }
            for methods in [false, true] {
                let m = self.members(methods);
                body.extend(m);
            }
        }
        let mut attrs = self.attributes(At::Class, 0);
        if self.m.constants {
            for _ in 0..self.s.below(8) {
                self.stray_constant();
            }
        }
        if self.boots > 0 || (self.major >= 51 && self.m.dynamic && self.s.chance(1, 4)) {
            let b = self.bootstrap_attribute();
            let n = u16::from_be_bytes([attrs[0], attrs[1]]) + 1;
            attrs[..2].copy_from_slice(&n.to_be_bytes());
            self.attr(&mut attrs, "BootstrapMethods", b);
        }
        body.extend(attrs);
        if self.m.big_pool {
            let upto = *self.s.pick(&[256usize, 257, 65_533, 65_534, 65_535, 40_000]);
            self.fill(upto);
        } else if self.m.stray && self.s.chance(1, 3) {
            // ends with a constant of two slots
            self.long();
        }
        let mut out = Buf::new();
        p4(&mut out, 0xCAFE_BABE);
        p2(&mut out, *self.s.pick(&[0u16, 0, 3, 0xffff]));
        p2(&mut out, self.major);
        p2(&mut out, self.pool.len() as u16);
        for c in &self.pool[1..] {
            match c {
                C::Hole => (),
                C::Utf8(t) => {
                    p1(&mut out, 1);
                    p2(&mut out, t.len() as u16);
                    out.extend(t);
                }
                C::Int(v) => {
                    p1(&mut out, 3);
                    p4(&mut out, *v);
                }
                C::Float(v) => {
                    p1(&mut out, 4);
                    p4(&mut out, *v);
                }
                C::Long(v) => {
                    p1(&mut out, 5);
                    out.extend(v.to_be_bytes());
                }
                C::Double(v) => {
                    p1(&mut out, 6);
                    out.extend(v.to_be_bytes());
                }
                C::One(t, a) => {
                    p1(&mut out, *t);
                    p2(&mut out, *a);
                }
                C::Two(t, a, b) => {
                    p1(&mut out, *t);
                    p2(&mut out, *a);
                    p2(&mut out, *b);
                }
                C::Handle(k, r) => {
                    p1(&mut out, 15);
                    p1(&mut out, *k);
                    p2(&mut out, *r);
                }
                C::Boot(t, a, b) => {
                    p1(&mut out, *t);
                    p2(&mut out, *a);
                    p2(&mut out, *b);
                }
            }
        }
        out.extend(body);
        out
    }
}

pub fn class_image(s: &mut Src, m: Mix) -> Vec<u8> {
    let major = match s.below(10) {
        0 => 45,
        1 => *s.pick(&[49u16, 50, 51]),
        2 => 52,
        3 => *s.pick(&[53u16, 54]),
        4 => 55,
        5 => *s.pick(&[66u16, 70]),
        _ => 61,
    };
    let interface = s.chance(1, 5);
    let mut g = Gen { s, m, major, pool: vec![C::Hole], seen: BTreeMap::new(), boots: 0, interface, budget: if m.big_lists { 200 } else { 24 } };
    g.image()
}

// -------------------------------------------------------------------------------- byzantine writers

/// Images from a writer that has gone mad: extreme nesting, sizes and counts, glued together by hand.
pub const HOSTILE: [&str; 15] = [
    "nested code", "nested records", "nested annotations", "nested arrays", "nested parameter annotations", "huge counts", "empty", "pool only", "count without pool", "switch range", "long jumps",
    "reference chain", "much of two things", "a long word", "many switches",
];
pub fn hostile_image(s: &mut Src, which: usize) -> Vec<u8> {
    let mut pool: Vec<Vec<u8>> = Vec::new();
    let utf8 = |pool: &mut Vec<Vec<u8>>, t: &str| {
        let mut e = vec![1];
        p2(&mut e, t.len() as u16);
        e.extend(t.as_bytes());
        pool.push(e);
        pool.len() as u16
    };
    let name = utf8(&mut pool, "A");
    let mut e = vec![7];
    p2(&mut e, name);
    pool.push(e);
    let this = pool.len() as u16;
    let wrap = |name: u16, body: &[u8]| {
        let mut b = Vec::new();
        p2(&mut b, name);
        p4(&mut b, body.len() as u32);
        b.extend(body);
        b
    };
    let depth_of = |s: &mut Src| match s.below(6) {
        0 => s.range(1, 8),
        1 => s.range(9, 20),
        2 => s.range(21, 110),
        3 => s.range(111, 400),
        4 => s.range(401, 3000),
        _ => s.range(3000, 9000),
    };
    let mut attrs: Vec<Vec<u8>> = Vec::new();
    let mut count_override = None;
    let cut;
    match which {
        0 | 1 => {
            let n = utf8(&mut pool, if which == 0 { "Code" } else { "Record" });
            let d = utf8(&mut pool, "I");
            let depth = depth_of(s);
            let mut head: Vec<Vec<u8>> = Vec::new();
            // built outside-in: header of each level, then the innermost attribute list
            let tail = vec![0u8, 0];
            let mut sizes = Vec::new();
            let mut size = tail.len();
            for _ in 0..depth {
                size += if which == 0 { 4 + 4 + 1 + 2 } else { 2 + 4 };
                sizes.push(size);
                size += 6 + 2;
            }
            for k in (0..depth as usize).rev() {
                let mut b = Vec::new();
                if k + 1 != depth as usize {
                    p2(&mut b, 1);
                }
                p2(&mut b, n);
                p4(&mut b, sizes[k] as u32);
                if which == 0 {
                    b.extend([0, 0, 0, 0, 0, 0, 0, 1, 0xb1, 0, 0]);
                } else {
                    p2(&mut b, 1);
                    p2(&mut b, name);
                    p2(&mut b, d);
                }
                head.push(b);
            }
            let mut b: Vec<u8> = head.concat();
            b.extend(tail);
            attrs.push(b);
            cut = false;
        }
        2..=4 => {
            let n = utf8(
                &mut pool,
                match which {
                    4 => "RuntimeVisibleParameterAnnotations",
                    _ => *s.pick(&["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "AnnotationDefault", "RuntimeVisibleTypeAnnotations"]),
                },
            );
            let t = utf8(&mut pool, "LA;");
            let mut e = vec![3];
            p4(&mut e, 7);
            pool.push(e);
            let int = pool.len() as u16;
            let depth = depth_of(s);
            let mut v: Vec<u8> = Vec::new();
            for k in 0..depth {
                if which == 3 || (which == 4 && k % 2 == 0) {
                    v.push(b'[');
                    p2(&mut v, 1);
                } else {
                    v.push(b'@');
                    p2(&mut v, t);
                    p2(&mut v, 1);
                    p2(&mut v, name);
                }
            }
            v.push(b'I');
            p2(&mut v, int);
            let mut b = Vec::new();
            let kind = std::str::from_utf8(&pool[n as usize - 1][3..]).unwrap().to_string();
            if kind == "AnnotationDefault" {
                b = v;
            } else {
                if which == 4 {
                    b.push(1);
                }
                p2(&mut b, 1);
                if kind == "RuntimeVisibleTypeAnnotations" {
                    b.extend([0x13, 0]);
                }
                p2(&mut b, t);
                p2(&mut b, 1);
                p2(&mut b, name);
                b.extend(v);
            }
            attrs.push(wrap(n, &b));
            cut = false;
        }
        5 => {
            let names = [
                "Code", "StackMapTable", "Exceptions", "InnerClasses", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "RuntimeVisibleAnnotations", "RuntimeInvisibleParameterAnnotations",
                "RuntimeVisibleTypeAnnotations", "BootstrapMethods", "MethodParameters", "ModulePackages", "NestMembers", "PermittedSubclasses", "Record", "Module", "AnnotationDefault",
            ];
            let nm = *s.pick(&names);
            let n = utf8(&mut pool, nm);
            let mut b = match nm {
                "AnnotationDefault" => vec![b'['],
                "Code" => vec![0, 1, 0, 1, 0, 0, 0, 1, 0xb1],
                "Module" => vec![0, 0, 0, 0, 0, 0],
                _ => Vec::new(),
            };
            b.extend([0xff, 0xff]);
            if s.chance(1, 2) {
                let k = s.below(40);
                for _ in 0..k {
                    b.push(s.u8());
                }
            }
            attrs.push(wrap(n, &b));
            cut = false;
        }
        6 => return vec![0xca, 0xfe, 0xba, 0xbe][..s.below(5) as usize].to_vec(),
        7 => cut = true,
        8 => {
            count_override = Some(*s.pick(&[65535u16, 65534, 32768, 1000]));
            cut = true;
        }
        9 | 10 => {
            let n = utf8(&mut pool, "Code");
            let mut code = Vec::new();
            let ends = [i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX];
            if which == 9 {
                let table = s.chance(2, 3);
                code.push(if table { 0xaa } else { 0xab });
                code.extend([0; 3]);
                p4(&mut code, 0);
                if table {
                    p4(&mut code, *s.pick(&ends) as u32);
                    p4(&mut code, *s.pick(&ends) as u32);
                } else {
                    p4(&mut code, *s.pick(&ends) as u32);
                }
                for _ in 0..s.below(8) {
                    p4(&mut code, 0);
                }
            } else {
                for _ in 0..s.below(4) {
                    code.push(0);
                }
                code.push(*s.pick(&[0xc8u8, 0xc9, 0xa7]));
                p4(&mut code, *s.pick(&ends) as u32);
                code.push(0xb1);
            }
            let mut b = vec![0, 1, 0, 1];
            p4(&mut b, if s.chance(1, 8) { s.edgy32() } else { code.len() as u32 });
            b.extend(code);
            b.extend([0, 0, 0, 0]);
            attrs.push(wrap(n, &b));
            cut = false;
        }
        12 => {
            // many constants that need the bootstrap table, and many attributes
            let (m, t) = (utf8(&mut pool, "m"), utf8(&mut pool, "()V"));
            let two = |pool: &mut Vec<Vec<u8>>, tag: u8, a: u16, b: u16| {
                let mut e = vec![tag];
                p2(&mut e, a);
                p2(&mut e, b);
                pool.push(e);
                pool.len() as u16
            };
            let nt = two(&mut pool, 12, m, t);
            let mr = two(&mut pool, 10, this, nt);
            pool.push(vec![15, 6, (mr >> 8) as u8, mr as u8]);
            let handle = pool.len() as u16;
            let table = utf8(&mut pool, "BootstrapMethods");
            let other = utf8(&mut pool, *s.pick(&["Deprecated", "Synthetic", "Strange"]));
            let sizes = [1u32, 300, 3000, 20_000];
            let (constants, attributes, entries) = (*s.pick(&sizes), *s.pick(&sizes), *s.pick(&sizes));
            for _ in 0..constants {
                let e = s.below(8).min(entries - 1);
                two(&mut pool, 18, e as u16, nt);
            }
            let mut b = Vec::new();
            p2(&mut b, entries as u16);
            for _ in 0..entries {
                p2(&mut b, handle);
                p2(&mut b, 0);
            }
            let at = s.below(attributes);
            for k in 0..attributes {
                if k == at {
                    attrs.push(wrap(table, &b));
                }
                attrs.push(wrap(other, &[]));
            }
            cut = false;
        }
        13 => {
            // one text that consists of many small parts, and what it is used for
            const PARTS: [&str; 14] = ["\\\\", "\\:", "a", "a/", "$", "\u{e9}", "\u{1f600}", "I", "[I", "LA;", "La/b;", "[[La;", "\\@a", "<"];
            let part = *s.pick(&PARTS);
            let size = *s.pick(&[65535usize, 65535, 40_000, 2000, 255, 300]);
            let times = (size - 4) / part.len();
            let whole = match s.below(8) {
                0 | 1 => format!("({})V", part.repeat(times)),
                2 => format!("{}a", part.repeat(times)),
                3 => format!("{}I", "[".repeat(times.min(255))),
                4 => format!("L{};", part.repeat(times).trim_end_matches('/')),
                _ => part.repeat(times),
            };
            let t = utf8(&mut pool, &whole);
            let (n, d) = (utf8(&mut pool, "n"), utf8(&mut pool, "()V"));
            // all of them read it, in turn
            let copies = if size > 10_000 { s.range(1, 4) } else { s.range(1, 100) };
            let tag = *s.pick(&[7u8, 8, 12, 13, 16, 19, 19, 19, 20]);
            for _ in 0..copies {
                let mut e = vec![if tag == 13 { 12 } else { tag }];
                match tag {
                    12 => {
                        p2(&mut e, t);
                        p2(&mut e, d);
                    }
                    13 => {
                        p2(&mut e, n);
                        p2(&mut e, t);
                    }
                    _ => p2(&mut e, t),
                }
                pool.push(e);
                if tag >= 12 && tag < 14 && whole.starts_with('(') {
                    let nt = pool.len() as u16;
                    let mut e = vec![10];
                    p2(&mut e, this);
                    p2(&mut e, nt);
                    pool.push(e);
                }
            }
            cut = false;
        }
        14 => {
            // a method body of little else
            let n = utf8(&mut pool, "Code");
            let mut code = Vec::new();
            let limit = *s.pick(&[65_500usize, 65_500, 20_000, 500]);
            let tables = s.below(3);
            let most = *s.pick(&[1u32, 2, 40, 5000]);
            while code.len() < limit {
                let k = s.below(most).min((limit - code.len()) as u32 / 8);
                let table = tables == 0 || tables == 1 && s.chance(1, 2);
                code.push(if table { 0xaa } else { 0xab });
                while code.len() % 4 != 0 {
                    code.push(0);
                }
                p4(&mut code, 0);
                if table {
                    p4(&mut code, 0);
                    p4(&mut code, k);
                } else {
                    p4(&mut code, k);
                }
                for i in 0..k + table as u32 {
                    if !table {
                        p4(&mut code, i);
                    }
                    p4(&mut code, 0);
                }
            }
            code.truncate(65_535);
            let mut b = vec![0, 1, 0, 1];
            p4(&mut b, code.len() as u32);
            b.extend(code);
            b.extend([0, 0, 0, 0]);
            attrs.push(wrap(n, &b));
            cut = false;
        }
        _ => {
            // constants that refer to each other in arbitrary ways
            let k = s.range(1, 12);
            let base = pool.len() as u32;
            for _ in 0..k {
                let t = *s.pick(&[12u8, 12, 12, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20]);
                let r = |s: &mut Src| (1 + s.below(base + k)) as u16;
                let mut e = vec![t];
                match t {
                    7 | 8 | 16 | 19 | 20 => p2(&mut e, r(s)),
                    15 => {
                        e.push(s.range(1, 9) as u8);
                        p2(&mut e, r(s));
                    }
                    _ => {
                        p2(&mut e, r(s));
                        p2(&mut e, r(s));
                    }
                }
                pool.push(e);
            }
            cut = false;
        }
    }
    let mut out = Vec::new();
    p4(&mut out, 0xCAFE_BABE);
    p2(&mut out, 0);
    p2(&mut out, 61);
    p2(&mut out, count_override.unwrap_or(pool.len() as u16 + 1));
    for e in pool {
        out.extend(e);
    }
    if cut {
        return out;
    }
    p2(&mut out, 0x21);
    p2(&mut out, this);
    p2(&mut out, 0);
    for _ in 0..3 {
        p2(&mut out, 0);
    }
    p2(&mut out, attrs.len() as u16);
    for a in attrs {
        out.extend(a);
    }
    out
}
