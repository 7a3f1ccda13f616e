//! What clients do with the values a class is made of: they take names and descriptors as keys, put
//! descriptors of their own together and write them into images, and look things up in instruction lists
//! of their own.
use crate::adapter::Walk;
use crate::alloc::Lib;
use crate::world::{client_point, count, fail, parse, sure, N};
use cafebabe::attributes::AttributeData;
use cafebabe::bytecode::{ByteCode, Opcode};
use cafebabe::constant_pool::ConstantPoolItem;
use cafebabe::descriptors::{ClassName, FieldDescriptor, FieldType, MethodDescriptor, ReturnDescriptor};
use cafebabe::{ClassFile, ParseError};
use simkit::gen::modified_utf8;
use simkit::src::{Rng, Src};
use simkit::tok::Hasher;
use std::borrow::Cow;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::TryFrom;
use std::fmt::{Debug, Display, Write};
use std::hash::{BuildHasher, Hash};

// ------------------------------------------------------------------------------------- notation
fn base(t: &FieldType) -> char {
    match t {
        FieldType::Byte => 'B',
        FieldType::Char => 'C',
        FieldType::Double => 'D',
        FieldType::Float => 'F',
        FieldType::Integer => 'I',
        FieldType::Long => 'J',
        FieldType::Short => 'S',
        FieldType::Boolean => 'Z',
        FieldType::Object(_) => 'L',
    }
}
fn field_text(d: &FieldDescriptor, out: &mut String) {
    for _ in 0..d.dimensions {
        out.push('[');
    }
    out.push(base(&d.field_type));
    if let FieldType::Object(c) = &d.field_type {
        out.push_str(c);
        out.push(';');
    }
}
fn method_text(d: &MethodDescriptor, out: &mut String) {
    out.push('(');
    for p in &d.parameters {
        field_text(p, out);
    }
    out.push(')');
    match &d.return_type {
        ReturnDescriptor::Void => out.push('V'),
        ReturnDescriptor::Return(f) => field_text(f, out),
    }
}
fn text_of<T>(d: &T, f: fn(&T, &mut String)) -> String {
    let mut s = String::new();
    f(d, &mut s);
    s
}
fn class_name_ok(s: &str) -> bool {
    s.split('/').all(|p| !p.is_empty() && !p.contains(['.', ';', '[']))
}

// ----------------------------------------------------------------------------------------- keys
/// Names and descriptors of different images, used as keys.
pub struct Table {
    pub names: Vec<&'static ClassName<'static>>,
    fields: Vec<&'static FieldDescriptor<'static>>,
    methods: Vec<&'static MethodDescriptor<'static>>,
}
const MANY: usize = 400;
impl Table {
    pub fn new() -> Self {
        Table { names: Vec::new(), fields: Vec::new(), methods: Vec::new() }
    }
    fn field(&mut self, d: &'static FieldDescriptor<'static>) {
        if let FieldType::Object(c) = &d.field_type {
            self.names.push(c);
        }
        self.fields.push(d);
    }
    pub fn add(&mut self, c: &'static ClassFile<'static>) {
        self.names.push(&c.this_class);
        self.names.extend(c.super_class.iter().chain(c.interfaces.iter().take(50)));
        for f in c.fields.iter().take(100) {
            self.field(&f.descriptor);
        }
        for m in c.methods.iter().take(100) {
            self.methods.push(&m.descriptor);
            for p in m.descriptor.parameters.iter().take(20) {
                self.field(p);
            }
            if let ReturnDescriptor::Return(r) = &m.descriptor.return_type {
                self.field(r);
            }
            for a in &m.attributes {
                if let AttributeData::LocalVariableTable(vs) = &a.data {
                    vs.iter().take(20).for_each(|v| self.field(&v.descriptor));
                }
            }
        }
        for a in &c.attributes {
            if let AttributeData::Record(rs) = &a.data {
                rs.iter().take(20).for_each(|r| self.field(&r.descriptor));
            }
        }
    }
    pub fn judge(&self, salt: u32) {
        let mut rng = Rng::new(salt as u64);
        fn sample<T: Copy>(xs: &[T], rng: &mut Rng) -> Vec<T> {
            if xs.len() <= MANY { xs.to_vec() } else { (0..MANY).map(|_| xs[rng.below(xs.len() as u64) as usize]).collect() }
        }
        let (names, fields, methods) = (sample(&self.names, &mut rng), sample(&self.fields, &mut rng), sample(&self.methods, &mut rng));
        sure(|| {
            keys("class names", &names, |d, s| s.push_str(d), &mut rng);
            keys("field descriptors", &fields, field_text, &mut rng);
            keys("method descriptors", &methods, method_text, &mut rng);
            ordered(&names);
        });
    }
}
fn differ(what: &str, why: &str, a: &str, b: &str) -> ! {
    let _l = Lib::leave();
    let cut = |s: &str| s.chars().take(80).collect::<String>();
    fail("value", &format!("{}: {} ({:?} and {:?})", what, why, cut(a), cut(b)))
}
fn keys<'x, T: Eq + Hash + Clone + Debug>(what: &str, xs: &[&'x T], text: fn(&T, &mut String), rng: &mut Rng) {
    let leave = Lib::leave();
    let texts: Vec<String> = xs.iter().map(|x| text_of(*x, text)).collect();
    let mut model: BTreeMap<&str, usize> = BTreeMap::new();
    let seed = RandomState::new();
    let mut map: HashMap<&T, usize, RandomState> = HashMap::with_hasher(seed.clone());
    for (i, t) in texts.iter().enumerate() {
        model.entry(t).or_insert(i);
    }
    drop(leave);
    client_point();
    for (i, x) in xs.iter().enumerate() {
        map.entry(*x).or_insert(i);
    }
    for (i, x) in xs.iter().enumerate() {
        match map.get(x) {
            None => differ(what, "a key is not found in the table it was put into", &texts[i], ""),
            Some(k) if texts[*k] != texts[i] => differ(what, "one is found in a table under the other", &texts[i], &texts[*k]),
            Some(k) if *k != model[&texts[i][..]] => differ(what, "the same key is in a table twice", &texts[i], &texts[*k]),
            _ => (),
        }
    }
    if map.len() != model.len() {
        differ(what, "a table has another number of keys than there are different texts", "", "");
    }
    client_point();
    for k in 0..200.min(xs.len() * xs.len()) {
        let i = rng.below(xs.len() as u64) as usize;
        // near neighbours are more often alike
        let j = if k % 2 == 0 { rng.below(xs.len() as u64) as usize } else { model[&texts[i][..]] };
        let same = texts[i] == texts[j];
        if (xs[i] == xs[j]) != same || (xs[j] == xs[i]) != same || (xs[i] != xs[j]) == same {
            differ(what, if same { "the same, but not equal" } else { "equal, but not the same" }, &texts[i], &texts[j]);
        }
        if same && seed.hash_one(xs[i]) != seed.hash_one(xs[j]) {
            differ(what, "equal, but with different hashes", &texts[i], &texts[j]);
        }
        let copy = xs[i].clone();
        if copy != *xs[i] || seed.hash_one(&copy) != seed.hash_one(xs[j]) && same || text_of(&copy, text) != texts[i] {
            differ(what, "a clone is something else", &texts[i], &text_of(&copy, text));
        }
        count(N::Values, 1);
    }
}
fn ordered(names: &[&ClassName]) {
    let set: BTreeSet<&ClassName> = names.iter().copied().collect();
    let texts: BTreeSet<&str> = names.iter().map(|n| &***n).collect();
    if set.len() != texts.len() {
        differ("class names", "a sorted table has another number of names than there are different texts", "", "");
    }
    for (a, b) in set.iter().zip(&texts) {
        if &***a != *b {
            differ("class names", "sorted in another order than their texts", a, b);
        }
    }
    for w in names.windows(2).take(100) {
        let want = (**w[0]).cmp(&**w[1]);
        if w[0].cmp(w[1]) != want || w[0].partial_cmp(w[1]) != Some(want) || (w[0] < w[1]) != want.is_lt() || (w[0] >= w[1]) != want.is_ge() {
            differ("class names", "compare in another way than their texts", w[0], w[1]);
        }
        // the same name, not out of an image
        let own = ClassName::try_from(Cow::Owned(w[0].to_string()));
        let seed = RandomState::new();
        match own {
            Ok(own) => {
                if own != *w[0] || *w[0] != own || seed.hash_one(&own) != seed.hash_one(w[0]) || own.cmp(w[0]).is_ne() {
                    differ("class names", "a name from an image and the same one made by a client differ", w[0], &own);
                }
            }
            Err(e) => differ("class names", "a client cannot make a name that is in an image", w[0], &e.to_string()),
        }
    }
}
/// Copies of constants and instructions say what their originals say, also when those are gone.
pub fn clones(c: &'static ClassFile<'static>, image: &'static [u8], salt: u32) {
    let mut rng = Rng::new(salt as u64);
    let said = |f: &mut dyn FnMut(&mut Walk<Hasher>)| {
        let mut h = Hasher::default();
        f(&mut Walk::new(image, &mut h));
        h.d.0
    };
    let same = |what: &str, k: usize, a: u64, b: u64| {
        if a != b {
            differ(what, "a clone is something else", &format!("number {}", k), "");
        }
        count(N::Values, 1);
    };
    sure(|| {
        let step = 1 + rng.below(3) as usize;
        for (k, c) in c.constantpool_iter().enumerate().step_by(step).take(MANY) {
            use ConstantPoolItem::*;
            let copy = match &c {
                LiteralConstant(x) => LiteralConstant(x.clone()),
                ClassInfo(x) => ClassInfo(x.clone()),
                FieldRef(x) => FieldRef(x.clone()),
                MethodRef(x) => MethodRef(x.clone()),
                InterfaceMethodRef(x) => InterfaceMethodRef(x.clone()),
                NameAndType(x) => NameAndType(x.clone()),
                MethodHandle(x) => MethodHandle(x.clone()),
                MethodType(x) => MethodType(x.clone()),
                Dynamic(x) => Dynamic(x.clone()),
                InvokeDynamic(x) => InvokeDynamic(x.clone()),
                ModuleInfo(x) => ModuleInfo(x.clone()),
                PackageInfo(x) => PackageInfo(x.clone()),
            };
            let want = said(&mut |w| w.constant(&c));
            drop(c);
            same("constants", k, want, said(&mut |w| w.constant(&copy)));
        }
        client_point();
        for m in c.methods.iter().take(30) {
            for a in &m.attributes {
                let AttributeData::Code(code) = &a.data else { continue };
                let Some(b) = &code.bytecode else { continue };
                for (k, (_, op)) in b.opcodes.iter().enumerate().take(MANY) {
                    let copy = op.clone();
                    same("instructions", k, said(&mut |w| w.opcode(op)), said(&mut |w| w.opcode(&copy)));
                }
            }
        }
    });
}

/// Errors of one client, compared with the one before.
pub fn judge_errors(a: &ParseError, again: &ParseError, text: &str, before: Option<&(ParseError, String)>) {
    sure(|| {
        if a != again || again != a || !(a == again) {
            differ("errors", "the same parse gives errors that are not equal", text, "");
        }
        if let Some((b, t)) = before {
            if (a == b) != (t == text) || (b == a) != (t == text) || (a != b) == (t == text) {
                differ("errors", if t == text { "the same, but not equal" } else { "equal, but not the same" }, text, t);
            }
        }
        let e: &dyn std::error::Error = a;
        if e.to_string() != a.to_string() || a.to_string() != format!("{}", a) || text.split(" / ").next().is_none_or(|t| t.is_empty()) {
            differ("errors", "the text of an error depends on the way it is asked for", &e.to_string(), text);
        }
    });
    count(N::Values, 1);
}

// ------------------------------------------------------------------------------------- assembly
#[derive(Clone, Copy, Debug)]
pub struct Part {
    dims: u8,
    base: u8,
    name: u16,
}
#[derive(Clone, Debug)]
pub struct Assembly {
    slot: usize,
    parts: Vec<Part>,
    /// The last part is what is returned.
    returns: bool,
    /// Where the sink fails.
    limit: u32,
    /// A class name, letter by letter.
    name: Vec<u8>,
    /// One of the letters comes that often.
    stretch: u32,
}
const WORDS: [&str; 16] = [
    "A", "java/lang/Object", "a/b/C$D", "\u{e9}/\u{1f600}/z", "\u{0}x", "L", "(I)V", " ", "V", "p0/p1/p2/p3/p4/p5/p6/p7/p8/p9/Q", "I", "a", "o/O", "<init>", "\u{ffff}\u{feff}", "x\u{7f}\u{80}\u{7ff}\u{800}",
];
const LETTERS: [char; 20] = ['a', 'L', 'I', 'V', '$', '/', 'b', '/', '.', ';', '[', '<', '>', ' ', '\0', '\u{e9}', '\u{4e2d}', '\u{1f600}', '(', ')'];
impl Assembly {
    pub fn slot(&self) -> usize {
        self.slot
    }
    pub fn draw(s: &mut Src) -> Self {
        let slot = s.index(crate::world::SLOTS);
        let n = if s.chance(1, 30) { s.below(300) } else { s.small(12) };
        let part = |s: &mut Src| Part {
            dims: match s.below(6) {
                0..=2 => 0,
                3 => s.below(4) as u8,
                4 => *s.pick(&[127, 128, 129, 254, 255]),
                _ => s.u8(),
            },
            base: s.below(12) as u8,
            name: s.u16(),
        };
        let parts = (0..=n).map(|_| part(s)).collect();
        let returns = s.chance(2, 3);
        let limit = if s.chance(1, 2) { s.below(1 + 20 * (n + 1)) } else { u32::MAX };
        let name = (0..s.small(10)).map(|_| if s.chance(1, 2) { 0 } else { s.index(LETTERS.len()) as u8 }).collect();
        let stretch = if s.chance(1, 8) { *s.pick(&[64, 127, 128, 255, 256, 1000, 65_000]) } else { 1 };
        Assembly { slot, parts, returns, limit, name, stretch }
    }
    /// `found`: class names the client has read somewhere.
    pub fn run(&self, found: &[&ClassName<'static>]) {
        let at = self.parts[0].name as usize % self.name.len().max(1);
        let letters: String = (self.name.iter().enumerate())
            .flat_map(|(i, k)| std::iter::repeat(LETTERS[*k as usize]).take(if i == at { self.stretch as usize } else { 1 }))
            .collect();
        name_from_text(&letters);
        let field = |p: &Part| {
            let field_type = match p.base {
                0 => FieldType::Byte,
                1 => FieldType::Char,
                2 => FieldType::Double,
                3 => FieldType::Float,
                4 => FieldType::Integer,
                5 => FieldType::Long,
                6 => FieldType::Short,
                7 => FieldType::Boolean,
                _ => {
                    let k = p.name as usize % (WORDS.len() + found.len().min(40));
                    FieldType::Object(match k.checked_sub(WORDS.len()) {
                        Some(k) => found[k * found.len() / found.len().min(40)].clone(),
                        None => name_from_text(WORDS[k]).expect("a good name"),
                    })
                }
            };
            FieldDescriptor { dimensions: p.dims, field_type }
        };
        let (last, params) = self.parts.split_last().unwrap();
        let one = sure(|| field(last));
        let text = text_of(&one, field_text);
        shown(&one, &text, self.limit);
        shown(&one.field_type, &text[one.dimensions as usize..], self.limit);
        client_point();
        through_disk(&one, &text, false, |c| &c.fields[0].descriptor);
        let all = sure(|| MethodDescriptor {
            parameters: params.iter().map(field).collect(),
            return_type: if self.returns { ReturnDescriptor::Return(one.clone()) } else { ReturnDescriptor::Void },
        });
        let text = text_of(&all, method_text);
        shown(&all, &text, self.limit);
        let back = if self.returns { text_of(&one, field_text) } else { "V".into() };
        shown(&all.return_type, &back, self.limit);
        client_point();
        let units: usize = all.parameters.iter().map(|p| if p.dimensions == 0 && "JD".contains(base(&p.field_type)) { 2 } else { 1 }).sum();
        if units <= 254 {
            through_disk(&all, &text, true, |c| &c.methods[0].descriptor);
        }
    }
}
/// A client makes a class name; the rules are those of binary names.
fn name_from_text(t: &str) -> Option<ClassName<'static>> {
    let owned = sure(|| ClassName::try_from(Cow::Owned::<str>(t.to_string())));
    let lent = sure(|| ClassName::try_from(Cow::Borrowed(t)).map(|n| n.to_string() == t && matches!(Cow::from(n), Cow::Borrowed(x) if std::ptr::eq(x, t) && x.len() == t.len())));
    if owned.is_ok() != class_name_ok(t) || lent.is_ok() != owned.is_ok() {
        fail("value", &format!("the class name {:?} made by a client is {}", t, if owned.is_ok() { "accepted" } else { "rejected" }));
    }
    if lent == Ok(false) {
        fail("value", &format!("the class name {:?} made by a client does not come back as it was", t));
    }
    count(N::Values, 1);
    let owned = sure(move || owned.ok())?;
    let back: Cow<str> = sure(|| Cow::from(owned.clone()));
    if *back != *t || *owned != *t {
        fail("value", &format!("the class name {:?} made by a client has become {:?}", t, back));
    }
    Some(owned)
}
struct Limited {
    left: u32,
    /// Fails once only, like a full buffer that somebody empties.
    once: bool,
    failed: bool,
    got: String,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _l = Lib::leave();
        let n = (s.len() as u32).min(self.left) as usize;
        if n < s.len() {
            self.left = if self.once { u32::MAX } else { 0 };
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= n as u32;
        if !self.failed {
            self.got.push_str(s);
        }
        Ok(())
    }
}
/// What is displayed is the notation of the class file format, also if it cannot be written to the end.
fn shown<T: Display>(d: &T, want: &str, limit: u32) {
    count(N::Values, 1);
    for (left, once) in [(u32::MAX, false), (limit, false), (limit, true)] {
        let mut p = Limited { left, once, failed: false, got: String::new() };
        let r = sure(|| write!(p, "{}", d));
        let whole = p.got == want;
        if r.is_ok() != whole || r.is_ok() == p.failed || left as usize >= want.len() && !whole || !want.starts_with(&p.got) {
            let cut = |s: &str| s.chars().take(200).collect::<String>();
            fail("value", &format!("{:?} is displayed as {:?} (room for {} bytes, {:?})", cut(want), cut(&p.got), left, r));
        }
    }
}
/// What a client has put together, displayed, written into an image and loaded again is the same.
fn through_disk<T: Eq + Hash + Debug>(d: &T, text: &str, method: bool, part: for<'x> fn(&'x ClassFile<'static>) -> &'x T)
where
    T: 'static,
{
    let t = modified_utf8(text);
    if t.len() > 65535 {
        return;
    }
    let image = little_image(&t, method);
    match parse(&image, true) {
        Err(e) => {
            let e = sure(|| e.to_string());
            fail("value", &format!("the descriptor {:?} of a client is refused in an image: {}", text.chars().take(200).collect::<String>(), e))
        }
        Ok(c) => {
            sure(|| {
                let back = part(&c);
                let seed = RandomState::new();
                if back != d || d != back || seed.hash_one(back) != seed.hash_one(d) || format!("{:?}", back) != format!("{:?}", d) {
                    differ("descriptors", "a descriptor of a client is not the one read from its display", text, &format!("{:?}", back));
                }
            });
            count(N::Values, 1);
            sure(move || drop(c));
        }
    }
}
fn little_image(desc: &[u8], method: bool) -> Vec<u8> {
    let mut b = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 52, 0, 7];
    let utf8 = |b: &mut Vec<u8>, t: &[u8]| {
        b.push(1);
        b.extend((t.len() as u16).to_be_bytes());
        b.extend(t);
    };
    utf8(&mut b, b"Client");
    b.extend([7, 0, 1]);
    utf8(&mut b, b"java/lang/Object");
    b.extend([7, 0, 3]);
    utf8(&mut b, b"it");
    utf8(&mut b, desc);
    b.extend([0x04, 0x21, 0, 2, 0, 4, 0, 0]);
    let member = [0, 1, 0x04, 0x01, 0, 5, 0, 6, 0, 0];
    if method {
        b.extend([0, 0]);
        b.extend(member);
    } else {
        b.extend([0, 1, 0, 1, 0, 5, 0, 6, 0, 0]);
        b.extend([0, 0]);
    }
    b.extend([0, 0]);
    b
}

// --------------------------------------------------------------------------------------- lookup
/// Offsets of an instruction list: a start and distances, which are repeated.
#[derive(Clone, Debug)]
pub struct Offsets {
    start: u64,
    gaps: Vec<u64>,
    times: u32,
    probes: Vec<u64>,
}
impl Offsets {
    pub fn draw(s: &mut Src) -> Self {
        let far = s.chance(1, 6);
        Offsets {
            start: if far { s.edgy64() } else { s.small(20) as u64 },
            gaps: (0..s.small(40)).map(|_| if s.chance(1, 12) { s.edgy64() >> s.below(64) } else { 1 + s.small(5) as u64 }).collect(),
            times: if s.chance(1, 10) { s.range(1, 400) } else { 1 },
            probes: (0..1 + s.small(10)).map(|_| if s.chance(1, 2) { s.edgy64() } else { s.small(300) as u64 }).collect(),
        }
    }
    pub fn run(&self) {
        let mut at = self.start as usize;
        let mut all: Vec<usize> = Vec::new();
        'full: for _ in 0..self.times {
            for g in &self.gaps {
                all.push(at);
                match at.checked_add(*g as usize) {
                    Some(x) => at = x,
                    None => break 'full,
                }
            }
        }
        let code = ByteCode { opcodes: all.iter().map(|o| (*o, if o % 3 == 0 { Opcode::Nop } else { Opcode::Bipush(1) })).collect() };
        let step = 1 + all.len() / 300;
        let near = all.iter().step_by(step).flat_map(|o| [*o, o.wrapping_add(1), o.wrapping_sub(1)]);
        for o in near.chain(self.probes.iter().map(|p| *p as usize)).chain([0, 1, usize::MAX, u16::MAX as usize, 1 << 31, 1 << 32]) {
            let got = sure(|| code.get_opcode_index(o));
            count(N::Finds, 1);
            let there = all.binary_search(&o).is_ok();
            if got.is_some() != there || got.is_some_and(|k| all.get(k) != Some(&o)) {
                fail("lookup", &format!("in a list of {} instructions from {:?} to {:?} the one at {} is said to be number {:?}", all.len(), all.first(), all.last(), o, got));
            }
        }
    }
}
