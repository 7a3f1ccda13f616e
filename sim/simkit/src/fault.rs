//! The simulated disk: what can happen to an image between the writer and a loader.
use crate::dec::{decode, Field, FK};
use crate::src::Src;

pub const KINDS: [&str; 26] = [
    "torn.prefix",
    "torn.zero_tail",
    "torn.stale_tail",
    "torn.extra",
    "bit.flip",
    "byte.set",
    "field.edge",
    "field.step",
    "field.redirect",
    "field.copy",
    "block.zero",
    "block.dup",
    "block.drop",
    "block.swap",
    "block.stale",
    "write.misdirected",
    "record.dup",
    "record.drop",
    "record.swap",
    "text.edit",
    "opcode.edit",
    "record.add",
    "constant.fresh",
    "instruction.other",
    "rule.edge",
    "reference.cycle",
];
/// How often each kind strikes. Blunt damage mostly ends in the constant pool; the precise kinds get
/// further.
const WEIGHT: [u32; 26] = [2, 1, 1, 1, 3, 3, 6, 6, 8, 4, 1, 2, 2, 1, 1, 2, 4, 4, 4, 9, 7, 1, 9, 8, 7, 3];
pub fn draw_kind(s: &mut Src) -> usize {
    let mut k = s.below(WEIGHT.iter().sum());
    for (i, w) in WEIGHT.iter().enumerate() {
        if k < *w {
            return i;
        }
        k -= w;
    }
    0
}
pub const TORN: [usize; 4] = [0, 1, 2, 3];

/// Longest image the disk stores.
pub const MAX_IMAGE: usize = 600_000;

fn get(b: &[u8], off: usize, len: usize) -> u64 {
    b.iter().skip(off).take(len).fold(0, |a, x| a << 8 | *x as u64)
}
fn put(b: &mut [u8], off: usize, len: usize, v: u64) {
    for i in 0..len {
        // an image that ends early may end within the field
        if let Some(x) = b.get_mut(off + i) {
            *x = (v >> (8 * (len - 1 - i))) as u8;
        }
    }
}

/// A field of one of the wanted kinds: first the role, then the place, so that rare structures get
/// their share.
fn pick_field(s: &mut Src, map: &[Field], want: &dyn Fn(&Field) -> bool) -> Option<Field> {
    let mut roles: Vec<&'static str> = Vec::new();
    for f in map.iter().filter(|f| want(f)) {
        if !roles.iter().any(|r| std::ptr::eq(*r, f.role) || *r == f.role) {
            roles.push(f.role);
        }
    }
    if roles.is_empty() {
        return None;
    }
    let role = *s.pick(&roles);
    let places: Vec<&Field> = map.iter().filter(|f| f.role == role && want(f)).collect();
    Some(**s.pick(&places))
}

const TEXTS: [&[u8]; 64] = [
    b"", b"a", b"A", b"I", b"V", b"()V", b"()", b"(", b")V", b"(I", b"(V)V", b"()VV", b"()I", b"(I)V", b"(LA;)V", b"([)V", b"L;", b"LA", b"LA;", b"LA;x", b"LA;LA;", b"I;", b"II", b"[", b"[[", b"[I", b"[V",
    b"[LA;", b"[LA", b"[[I", b"[Ix", b"L/A;", b"LA/;", b"La//b;", b"La.b;", b"a/b", b"/a", b"a/", b"a//b", b"a.b", b"a;b", b"a[b", b"<init>", b"<clinit>", b"<", b"a<b", b"a>b", b"Code", b"Record",
    b"BootstrapMethods", b"Synthetic", b"StackMapTable", b"RuntimeVisibleAnnotations", b"InnerClasses", b"LocalVariableTable", b"Module", b"\xc0\x80", b"\xff", b"\xed\xa0\x80", b"\xed\xa0\xbd\xed\xb8\x80",
    b"\xf0\x9f\x98\x80", b"\xc1\x81", b"\xe2\x82", b"a\0b",
];
const BITS: [&[u8]; 24] = [
    b".", b";", b"[", b"/", b"<", b">", b"(", b")", b"V", b"I", b"L", b"x", b":", b"@", b"\\", b"\0", b"\xc0\x80", b"\x80", b"\xff", b"\xc3\xa9", b"\xed\xa0\x80", b"\xed\xb0\x80", b"\xe6\x97\xa5", b"\xf0\x9f\x98\x80",
];

/// Names of classes and modules, good and bad.
const CLASSES: [&[u8]; 22] = [
    b"[I", b"[Ix", b"[LA;", b"[LA;x", b"[LA", b"[", b"[V", b"[[", b"[L;", b"[L/A;", b"[LA/;", b"[[[[D", b"[a", b"/a", b"a/", b"a//b", b"a.b", b"a;b", b"a[b", b"", b"I", b"LA;",
];
const MODULES: [&[u8]; 16] = [b"a\\", b"a\\\\", b"a\\x", b"a\\:", b"a\\@b", b"a:", b":a", b"a@b", b"@", b"\x1f", b"a\x1fb", b"\x01", b" ", b"a\\\x1f", b"", b"a\xc0\x80"];

/// Replaces the bytes of a text, keeping its length field consistent.
fn set_text(b: &mut Vec<u8>, f: &Field, t: &[u8]) -> bool {
    let (off, len) = (f.off as usize, f.len as usize);
    if t.len() > 65535 || (f.role != "utf8.bytes" && t.len() != len) {
        return false;
    }
    if f.role == "utf8.bytes" {
        put(b, off - 2, 2, t.len() as u64);
    }
    b.splice(off..off + len, t.iter().copied());
    true
}

fn edited(s: &mut Src, b: &[u8], texts: &[Field], old: &[u8]) -> Vec<u8> {
    let mut t = old.to_vec();
    let how = s.below(9);
    match how {
        0 | 1 if !t.is_empty() => {
            // overwrite one byte with something special
            let at = s.index(t.len());
            t[at] = match s.below(4) {
                0 => s.u8(),
                _ => s.pick(&BITS)[0],
            };
        }
        2 | 3 => {
            let at = match s.below(3) {
                0 => t.len(),
                1 => 0,
                _ => s.index(t.len() + 1),
            };
            let x = *s.pick(&BITS);
            t.splice(at..at, x.iter().copied());
        }
        4 if !t.is_empty() => {
            let at = s.index(t.len());
            t.remove(at);
        }
        5 => {
            let x = *s.pick(&TEXTS);
            t.extend(x);
        }
        6 => {
            // as many array dimensions as descriptors allow, give or take one
            let n = *s.pick(&[1usize, 254, 255, 256, 2000]);
            let at = if s.chance(1, 2) { t.iter().position(|c| matches!(c, b'L' | b'I' | b')')).unwrap_or(0) } else { 0 };
            t.splice(at..at, std::iter::repeat_n(b'[', n));
        }
        7 => {
            // another text of the same image
            let g = *s.pick(texts);
            t = b[g.off as usize..(g.off + g.len) as usize].to_vec();
        }
        _ => t = s.pick(&TEXTS).to_vec(),
    }
    t
}
fn text_edit(s: &mut Src, b: &mut Vec<u8>, d: &Decoded2) -> Option<String> {
    let texts: Vec<Field> = d.map.iter().filter(|f| f.kind == FK::Text).copied().collect();
    if texts.is_empty() {
        return None;
    }
    let f = *s.pick(&texts);
    let old = b[f.off as usize..(f.off + f.len) as usize].to_vec();
    let t = edited(s, b, &texts, &old);
    if t == old || !set_text(b, &f, &t) {
        return None;
    }
    Some(format!("text at {:#x}: \"{}\" becomes \"{}\"", f.off, show(&old), show(&t)))
}
fn show(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.iter().take(40) {
        o.extend(c.escape_ascii().map(|x| x as char));
    }
    if b.len() > 40 {
        o.push_str("..");
    }
    o
}

struct Decoded2 {
    map: Vec<Field>,
    recs: Vec<crate::dec::Rec>,
    tags: Vec<u8>,
}

/// Damages the image in one way of the given kind. None: nothing to damage like that.
pub fn inject(s: &mut Src, kind: usize, b: &mut Vec<u8>, other: &[u8]) -> Option<String> {
    if b.is_empty() && kind != 3 {
        return None;
    }
    let n = b.len();
    let before = if kind >= 10 && kind <= 15 { Some(b.clone()) } else { None };
    let d = if matches!(kind, 0 | 1 | 2 | 6..=9 | 16..=24) {
        let d = decode(b, true);
        Decoded2 { map: d.map, recs: d.recs, tags: d.tags }
    } else {
        Decoded2 { map: vec![], recs: vec![], tags: vec![] }
    };
    // little is wrong with a module but a superclass or members
    let module = d.map.iter().any(|f| f.role == "class.flags" && b[f.off as usize] & 0x80 != 0);
    let kind = if module && kind >= 6 && s.chance(1, 8) { 21 + 3 * s.below(2) as usize } else { kind };
    let cut = |s: &mut Src| -> usize {
        match s.below(4) {
            0 => n - 1 - s.index(n.min(12)),
            1 | 2 if !d.map.is_empty() => {
                let f = d.map[s.index(d.map.len())];
                (f.off as usize + if s.chance(1, 3) { s.index(f.len as usize + 1) } else { 0 }).min(n - 1)
            }
            _ => s.index(n),
        }
    };
    let note = match kind {
        0 => {
            let at = cut(s);
            b.truncate(at);
            format!("only {} of {} bytes reached the disk", at, n)
        }
        1 => {
            let at = cut(s);
            if b[at..].iter().all(|x| *x == 0) {
                return None;
            }
            b[at..].fill(0);
            format!("bytes from {:#x} on read back as zeros", at)
        }
        2 => {
            let at = cut(s);
            let mut changed = false;
            for i in at..n {
                let v = other.get(i).copied().unwrap_or(0);
                changed |= b[i] != v;
                b[i] = v;
            }
            if !changed {
                return None;
            }
            format!("bytes from {:#x} on are those of an older file", at)
        }
        3 => {
            let k = match s.below(6) {
                0 => 1,
                1 => s.range(1, 8) as usize,
                2 => s.range(1, 600) as usize,
                3 | 4 => {
                    // up to the end of a block
                    let block = *s.pick(&[512usize, 4, 8, 16, 64, 1024, 4096]);
                    block - n % block
                }
                _ => 2,
            };
            match s.below(6) {
                0 | 1 => b.extend(std::iter::repeat_n(0u8, k)),
                2 => b.extend(other.iter().cycle().take(if other.is_empty() { 0 } else { k })),
                3 => b.extend_from_slice(*s.pick(&[&b"\n"[..], b"\r\n", b"\r", b"\x1a", b" ", b"\xca\xfe\xba\xbe", b"PK\x03\x04", b"\0\n", b"\n\n"])),
                4 => {
                    let x = *s.pick(&[0xffu8, b'\n', b' ', 0x1a, 0xaa]);
                    b.extend(std::iter::repeat_n(x, k))
                }
                _ => {
                    for _ in 0..k {
                        b.push(s.u8());
                    }
                }
            }
            if b.len() == n {
                return None;
            }
            format!("{} stray bytes after the end", b.len() - n)
        }
        4 => {
            let k = 1 + s.small(3) as usize;
            let mut note = String::from("bit flips at");
            for _ in 0..k {
                let (at, bit) = (s.index(n), s.below(8));
                b[at] ^= 1 << bit;
                note.push_str(&format!(" {:#x}.{}", at, bit));
            }
            note
        }
        5 => {
            let at = s.index(n);
            let v = if s.chance(1, 2) { s.u8() } else { *s.pick(&[0u8, 1, 0xff, 0x7f, 0x80, 0xc4, 0xaa]) };
            if b[at] == v {
                return None;
            }
            b[at] = v;
            format!("byte at {:#x} becomes {:#x}", at, v)
        }
        6 | 7 => {
            let f = pick_field(s, &d.map, &|f| !matches!(f.kind, FK::Text | FK::Raw) && f.len > 0)?;
            let (off, len) = (f.off as usize, f.len as usize);
            if len > 8 {
                return None;
            }
            let max = if len == 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
            let old = get(b, off, len);
            let rest = (n - off - len) as u64;
            let v = if kind == 7 {
                let k = 1 + s.small(2) as u64;
                if s.chance(1, 2) { old.wrapping_add(k) } else { old.wrapping_sub(k) }
            } else {
                match f.kind {
                    FK::Tag => match s.below(3) {
                        0 => s.below(21) as u64,
                        1 => *s.pick(&[7u64, 8, 63, 64, 127, 128, 246, 247, 248, 250, 251, 252, 254, 255, 0x10, 0x13, 0x40, 0x43, 0x47, 0x4b, 0x4c, b'@' as u64, b'[' as u64, b'e' as u64, b'c' as u64, b's' as u64]),
                        _ => s.u8() as u64,
                    },
                    FK::Flags => old ^ (1 << s.below(16)),
                    FK::Opcode => s.u8() as u64,
                    FK::Idx => match s.below(4) {
                        0 => 0,
                        1 => d.tags.len() as u64,
                        2 => max,
                        _ => d.tags.len() as u64 + s.below(4) as u64,
                    },
                    FK::Jump => match s.below(7) {
                        0 => 0,
                        1 => 1,
                        2 => max,
                        3 => max >> 1,
                        4 => (max >> 1) + 1,
                        5 => old.wrapping_neg(),
                        _ => s.edgy32() as u64,
                    },
                    _ => match s.below(12) {
                        0 => 0,
                        1 => 1,
                        2 => max,
                        3 => max >> 1,
                        4 => (max >> 1) + 1,
                        5 => rest,
                        6 => rest + 1,
                        7 => rest.wrapping_sub(1),
                        8 => old.wrapping_mul(2),
                        9 => max - s.below(8) as u64,
                        10 => old ^ (1 << s.below(8 * len as u32)),
                        _ => s.edgy32() as u64,
                    },
                }
            } & max;
            if v == old {
                return None;
            }
            put(b, off, len, v);
            format!("{} at {:#x}: {:#x} becomes {:#x}", f.role, off, old, v)
        }
        8 => {
            let f = pick_field(s, &d.map, &|f| f.kind == FK::Idx)?;
            let (off, len) = (f.off as usize, f.len as usize);
            let old = get(b, off, len);
            let old_tag = d.tags.get(old as usize).copied();
            let same: Vec<u64> = (1..d.tags.len()).filter(|i| Some(d.tags[*i]) == old_tag && *i as u64 != old).map(|i| i as u64).collect();
            let kinds: Vec<u8> = {
                let mut k = d.tags.clone();
                k.sort();
                k.dedup();
                k
            };
            let v = match s.below(6) {
                0 | 1 if !same.is_empty() => *s.pick(&same),
                2 => s.below(d.tags.len() as u32 + 2) as u64,
                3 => 0,
                _ if !kinds.is_empty() => {
                    // a constant of some other kind
                    let t = *s.pick(&kinds);
                    let of: Vec<u64> = (0..d.tags.len()).filter(|i| d.tags[*i] == t).map(|i| i as u64).collect();
                    *s.pick(&of)
                }
                _ => return None,
            };
            let max = (1u64 << (8 * len)) - 1;
            if v == old || v > max {
                return None;
            }
            put(b, off, len, v);
            format!("{} at {:#x}: constant {} becomes {} (kind {} instead of {})", f.role, off, old, v, d.tags.get(v as usize).copied().unwrap_or(0), old_tag.unwrap_or(0))
        }
        9 => {
            let f = pick_field(s, &d.map, &|f| !matches!(f.kind, FK::Text | FK::Raw) && f.len > 0)?;
            let others: Vec<&Field> = d.map.iter().filter(|g| g.role == f.role && g.len == f.len && g.off != f.off).collect();
            if others.is_empty() {
                return None;
            }
            let g = *s.pick(&others);
            let v = get(b, g.off as usize, g.len.min(8) as usize);
            let (off, len) = (f.off as usize, f.len.min(8) as usize);
            let old = get(b, off, len);
            if old == v {
                return None;
            }
            put(b, off, len, v);
            format!("{} at {:#x}: {:#x} becomes {:#x}, as at {:#x}", f.role, off, old, v, g.off)
        }
        10..=15 => {
            let size = *s.pick(&[4usize, 16, 64, 512]);
            let blocks = n.div_ceil(size);
            let k = s.index(blocks);
            let (lo, hi) = (k * size, ((k + 1) * size).min(n));
            match kind {
                10 => b[lo..hi].fill(0),
                11 => {
                    let x = b[lo..hi].to_vec();
                    b.splice(hi..hi, x);
                }
                12 => {
                    b.drain(lo..hi);
                }
                13 => {
                    let j = s.index(blocks);
                    let (l2, h2) = (j * size, ((j + 1) * size).min(n));
                    let len = (hi - lo).min(h2 - l2);
                    for i in 0..len {
                        b.swap(lo + i, l2 + i);
                    }
                }
                14 => {
                    for i in lo..hi {
                        b[i] = other.get(i).copied().unwrap_or(0);
                    }
                }
                _ => {
                    // a block meant for another place lands here
                    let from = s.index(n);
                    for i in 0..(hi - lo) {
                        b[lo + i] = b[(from + i) % n];
                    }
                }
            }
            if before.as_ref() == Some(b) {
                return None;
            }
            format!("{}-byte block at {:#x}", size, lo)
        }
        16..=18 => {
            let mut lists: Vec<&'static str> = Vec::new();
            for r in &d.recs {
                if !lists.contains(&r.list) {
                    lists.push(r.list);
                }
            }
            if lists.is_empty() {
                return None;
            }
            let list = *s.pick(&lists);
            let all: Vec<&crate::dec::Rec> = d.recs.iter().filter(|r| r.list == list).collect();
            let r = *s.pick(&all);
            let (off, len) = (r.off as usize, r.len as usize);
            let (co, cw) = (r.count_off as usize, r.count_width as usize);
            let count = get(b, co, cw);
            if kind == 18 {
                let peers: Vec<&crate::dec::Rec> = all.iter().filter(|q| q.count_off == r.count_off && q.off > r.off).copied().collect();
                if peers.is_empty() {
                    return None;
                }
                let q = *s.pick(&peers);
                let (o2, l2) = (q.off as usize, q.len as usize);
                if o2 < off + len {
                    return None;
                }
                let mut x = b[o2..o2 + l2].to_vec();
                x.extend(&b[off + len..o2]);
                x.extend(&b[off..off + len]);
                if b[off..o2 + l2] == x[..] {
                    return None;
                }
                b[off..o2 + l2].copy_from_slice(&x);
                format!("{} at {:#x} and {:#x} change places", list, off, o2)
            } else {
                let delta = if kind == 16 { len as i64 } else { -(len as i64) };
                if (kind == 16 && count + 1 >= 1 << (8 * cw)) || count == 0 {
                    return None;
                }
                for l in &r.inside {
                    let v = get(b, *l as usize, 4) as i64 + delta;
                    put(b, *l as usize, 4, v as u64);
                }
                put(b, co, cw, if kind == 16 { count + 1 } else { count - 1 });
                if kind == 16 {
                    let x = b[off..off + len].to_vec();
                    // the second one is not always next to the first
                    let peers: Vec<&crate::dec::Rec> = all.iter().filter(|q| q.count_off == r.count_off).copied().collect();
                    let q = *s.pick(&peers);
                    let at = (q.off + q.len) as usize;
                    b.splice(at..at, x);
                    format!("{} at {:#x} is there twice, again at {:#x}", list, off, at)
                } else {
                    b.drain(off..off + len);
                    format!("{} at {:#x} is gone", list, off)
                }
            }
        }
        19 => text_edit(s, b, &d)?,
        21 => {
            // one more interface or member, made of what the pool has
            let list = *s.pick(&["interfaces.count", "fields.count", "methods.count"]);
            let f = *d.map.iter().find(|f| f.role == list)?;
            let off = f.off as usize;
            let count = get(b, off, 2);
            if count == 65535 {
                return None;
            }
            let of = |tag: u8| -> Vec<u64> { (1..d.tags.len()).filter(|i| d.tags[*i] == tag).map(|i| i as u64).collect() };
            let mut x = vec![0u8; 8];
            if list == "interfaces.count" {
                x.truncate(2);
                put(&mut x, 0, 2, *s.pick_some(&of(7))?);
            } else {
                put(&mut x, 0, 2, if s.chance(1, 2) { 0 } else { 1 << s.below(16) });
                put(&mut x, 2, 2, *s.pick_some(&of(1))?);
                let fits: Vec<u64> = d.map.iter().filter(|f| f.kind == FK::Text && f.role == "utf8.bytes").zip(of(1)).filter(|(f, _)| f.len > 0 && (b[f.off as usize] == b'(') == (list == "methods.count")).map(|x| x.1).collect();
                put(&mut x, 4, 2, *s.pick_some(&fits)?);
            }
            b.splice(off + 2..off + 2, x);
            put(b, off, 2, count + 1);
            format!("one more in the list at {:#x} ({})", off, list)
        }
        22 => fresh_constant(s, b, &d)?,
        23 => other_instruction(s, b, &d)?,
        24 => rule_edge(s, b, &d)?,
        25 => cycle(s, b, &d)?,
        _ => {
            let f = pick_field(s, &d.map, &|f| f.kind == FK::Opcode)?;
            let v = if s.chance(1, 3) { *s.pick(&[0xc4u8, 0xaa, 0xab, 0xc8, 0xcb, 0xfd, 0xca, 0xba, 0xb9, 0x12, 0xbc]) } else { s.u8() };
            let off = f.off as usize;
            if b[off] == v {
                return None;
            }
            let old = b[off];
            b[off] = v;
            format!("opcode at {:#x}: {:#x} becomes {:#x}", off, old, v)
        }
    };
    b.truncate(MAX_IMAGE);
    Some(note)
}

/// The constant pool of an image, to be extended.
struct Pool<'d> {
    d: &'d Decoded2,
    /// Where each constant begins; 0 for the unused ones.
    at: Vec<usize>,
    /// Where the pool ends.
    end: usize,
    next: usize,
    more: Vec<u8>,
}
impl<'d> Pool<'d> {
    fn of(b: &[u8], d: &'d Decoded2) -> Option<Self> {
        let end = d.map.iter().find(|f| f.role == "class.flags")?.off as usize;
        let mut at = vec![0usize];
        for f in d.map.iter().filter(|f| f.role == "cp.tag" && (f.off as usize) < end) {
            at.push(f.off as usize);
            if matches!(b[f.off as usize], 5 | 6) {
                at.push(0);
            }
        }
        let next = get(b, 8, 2) as usize;
        (at.len() == next && d.tags.len() == next).then_some(Pool { d, at, end, next, more: Vec::new() })
    }
    fn raw<'b>(&self, b: &'b [u8], ix: usize) -> Option<&'b [u8]> {
        let from = *self.at.get(ix).filter(|a| **a != 0)?;
        let to = self.at[ix + 1..].iter().copied().find(|a| *a != 0).unwrap_or(self.end);
        Some(&b[from..to])
    }
    fn add(&mut self, x: &[u8]) -> Option<usize> {
        let ix = self.next;
        self.next += if matches!(x[0], 5 | 6) { 2 } else { 1 };
        self.more.extend(x);
        (self.next <= 65535).then_some(ix)
    }
    fn add_text(&mut self, t: &[u8]) -> Option<usize> {
        let mut x = vec![1u8];
        x.extend((t.len() as u16).to_be_bytes());
        x.extend(t);
        if t.len() > 65535 { None } else { self.add(&x) }
    }
    /// Any constant; all kinds are equally likely.
    fn any(&self, s: &mut Src) -> Option<usize> {
        let mut kinds: Vec<u8> = self.d.tags.clone();
        kinds.sort();
        kinds.dedup();
        let t = *s.pick_some(&kinds)?;
        self.of_kind(s, &[t])
    }
    fn of_kind(&self, s: &mut Src, tags: &[u8]) -> Option<usize> {
        let of: Vec<usize> = (0..self.d.tags.len()).filter(|i| tags.contains(&self.d.tags[*i])).collect();
        s.pick_some(&of).copied()
    }
    fn finish(self, b: &mut Vec<u8>) {
        b.splice(self.end..self.end, self.more);
        put(b, 8, 2, self.next as u64);
    }
    /// A copy of a constant that is wrong somewhere in the depth.
    fn fresh(&mut self, s: &mut Src, b: &[u8], ix: usize, user: u8, note: &mut String) -> Option<usize> {
        let mut x = self.raw(b, ix)?.to_vec();
        note.push_str(&format!("/{}", x[0]));
        let subs: &[usize] = match x[0] {
            7 | 8 | 16 | 19 | 20 => &[1],
            9..=12 => &[1, 3],
            15 => &[2],
            17 | 18 => &[3],
            _ => &[],
        };
        if x[0] == 1 {
            let texts: Vec<Field> = self.d.map.iter().filter(|f| f.kind == FK::Text).copied().collect();
            let telling: &[&[u8]] = match user {
                7 => &CLASSES,
                19 => &MODULES,
                _ => &[],
            };
            let t = if !telling.is_empty() && s.chance(1, 3) { s.pick(telling).to_vec() } else { edited(s, b, &texts, &x[3..]) };
            note.push_str(&format!(" \"{}\"", show(&t)));
            return self.add_text(&t);
        }
        match s.below(8) {
            0 => {
                let peers: &[u8] = match x[0] {
                    3 | 4 => &[3, 4],
                    5 | 6 => &[5, 6],
                    7 | 8 | 16 | 19 | 20 => &[7, 8, 16, 19, 20],
                    9..=11 => &[9, 10, 11],
                    17 | 18 => &[17, 18],
                    15 => {
                        x[1] = s.below(11) as u8;
                        &[15]
                    }
                    _ => &[12],
                };
                x[0] = *s.pick(peers);
            }
            1 if !subs.is_empty() => {
                let k = *s.pick(subs);
                let to = self.any(s)?;
                put(&mut x, k, 2, to as u64);
            }
            _ if !subs.is_empty() => {
                let k = *s.pick(subs);
                let sub = self.fresh(s, b, get(&x, k, 2) as usize, x[0], note)?;
                put(&mut x, k, 2, sub as u64);
            }
            _ => (),
        }
        self.add(&x)
    }
}

/// One reference goes to a copy of its constant, made for it alone, with something else about it.
fn fresh_constant(s: &mut Src, b: &mut Vec<u8>, d: &Decoded2) -> Option<String> {
    let mut p = Pool::of(b, d)?;
    let f = pick_field(s, &d.map, &|f| f.kind == FK::Idx && f.len == 2)?;
    let old = get(b, f.off as usize, 2) as usize;
    let mut note = String::new();
    let new = p.fresh(s, b, old, 0, &mut note)?;
    put(b, f.off as usize, 2, new as u64);
    p.finish(b);
    Some(format!("{} at {:#x} has a constant of its own instead of {}: {}", f.role, f.off, old, note))
}

/// Appends an instruction to a body, or overwrites some with another one and nops.
fn other_instruction(s: &mut Src, b: &mut Vec<u8>, d: &Decoded2) -> Option<String> {
    let p = Pool::of(b, d)?;
    let bodies: Vec<Field> = d.map.iter().filter(|f| f.role == "Code.code_length").copied().collect();
    let f = *s.pick_some(&bodies)?;
    let from = f.off as usize + 4;
    let to = from.checked_add(get(b, f.off as usize, 4) as usize).filter(|t| *t <= b.len())?;
    let ops: Vec<usize> = d.map.iter().filter(|f| f.role == "opcode" && (from..to).contains(&(f.off as usize))).map(|f| f.off as usize).collect();
    if ops.is_empty() {
        return None;
    }
    let append = s.chance(2, 3);
    let k = s.index(ops.len());
    let at = if append { to } else { ops[k] };
    let end = ops.get(k + 1 + s.small(8) as usize).copied().unwrap_or(to);
    let pad = 3 - (at - from) % 4;
    let two = |x: &mut Vec<u8>, v: usize| x.extend((v as u16).to_be_bytes());
    let four = |x: &mut Vec<u8>, v: i32| x.extend(v.to_be_bytes());
    let mut x: Vec<u8> = Vec::new();
    match s.below(13) {
        0 | 1 => {
            x.push(0xaa);
            x.extend(vec![0; pad]);
            four(&mut x, 0);
            let low = *s.pick(&[0, 1, -1, 5, i32::MAX, i32::MIN]);
            let n = *s.pick(&[-1, -1, 0, 1, 2, -2, i32::MIN]);
            four(&mut x, low);
            four(&mut x, low.wrapping_add(n).wrapping_sub((n > 0) as i32));
            (0..n.max(0)).for_each(|_| four(&mut x, 0));
        }
        2 | 3 => {
            x.push(0xab);
            x.extend(vec![0; pad]);
            four(&mut x, 0);
            let n = *s.pick(&[-1, 0, 1, 2, i32::MIN, -2]);
            four(&mut x, n);
            let sorted = s.chance(1, 2);
            for i in 0..n.max(0) {
                four(&mut x, if sorted { i - 1 } else { 1 - i });
                four(&mut x, 0);
            }
        }
        4 => {
            x.push(0xc4);
            x.push(*s.pick(&[0x15u8, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9, 0x84, 0xc4, 0x00, 0x1a, 0x14, 0x35, 0x3b, 0xa8, 0xaa]));
            two(&mut x, s.u16() as usize);
            if x[1] == 0x84 || s.chance(1, 4) {
                two(&mut x, s.u16() as usize);
            }
        }
        5 => x.extend([0xbc, s.below(16) as u8]),
        6 | 7 => {
            x.push(*s.pick(&[0xb2u8, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xbb, 0xbd, 0xc0, 0xc1, 0x13, 0x14]));
            two(&mut x, p.any(s)?);
        }
        8 => x.extend([0x12, u8::try_from(p.any(s)?).ok()?]),
        9 => {
            let indy = s.chance(1, 2);
            x.push(if indy { 0xba } else { 0xb9 });
            let ix = match s.below(4) {
                0 => p.any(s)?,
                _ => p.of_kind(s, if indy { &[18] } else { &[11] })?,
            };
            two(&mut x, ix);
            x.push(if indy { *s.pick(&[0, 0, 1, 0x80]) } else { *s.pick(&[0, 1, 1, 2, 255]) });
            x.push(*s.pick(&[0, 0, 1, 0xff]));
        }
        10 => {
            x.push(0xc5);
            let ix = if s.chance(1, 2) { p.any(s)? } else { p.of_kind(s, &[7])? };
            two(&mut x, ix);
            x.push(*s.pick(&[0, 1, 2, 255]));
        }
        11 => {
            let wide = s.chance(1, 4);
            let room = (to - at) as i32;
            let rel = *s.pick(&[0, 1, 2, 3, 4, 5, -1, -2, room, room - 1, room + 1, -((at - from) as i32), -((at - from) as i32) - 1, 32767, -32768]);
            if wide {
                x.push(0xc8 + s.below(2) as u8);
                four(&mut x, rel);
            } else {
                x.push(*s.pick(&[0x99u8, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xc6, 0xc7]));
                two(&mut x, rel as usize);
            }
        }
        _ => x.push(0xca + s.below(54) as u8),
    }
    if append {
        let n = x.len() as u64;
        if s.chance(1, 2) {
            x.push(0);
        }
        for o in d.recs.iter().filter(|r| r.list == "attribute" && r.off <= f.off && f.off < r.off + r.len).map(|r| r.off as usize + 2) {
            let v = get(b, o, 4) + x.len() as u64;
            put(b, o, 4, v);
        }
        put(b, f.off as usize, 4, (to - from + x.len()) as u64);
        let note = format!("{:02x?} at the end of the instructions, at {:#x} ({} bytes)", x, to, n);
        b.splice(to..to, x);
        return Some(note);
    }
    if at + x.len() > end {
        return None;
    }
    b[at..end].fill(0);
    b[at..at + x.len()].copy_from_slice(&x);
    Some(format!("instructions at {:#x}..{:#x} become {:02x?} and nops", at, end, x))
}

/// A constant comes to refer to one that refers to it, directly or not.
fn cycle(s: &mut Src, b: &mut [u8], d: &Decoded2) -> Option<String> {
    let p = Pool::of(b, d)?;
    let refs: Vec<(usize, usize)> = (d.map.iter().filter(|f| f.kind == FK::Idx && f.len == 2 && (f.off as usize) < p.end))
        .map(|f| f.off as usize)
        .filter_map(|o| Some((o, p.at.iter().rposition(|a| *a != 0 && *a < o)?)))
        .collect();
    // where references come from
    let mut by: Vec<Vec<usize>> = vec![Vec::new(); p.next];
    for (o, owner) in &refs {
        by.get_mut(get(b, *o, 2) as usize)?.push(*owner);
    }
    // a kind of constant first, then one of it that others refer to
    let mut kinds: Vec<(u8, bool)> = refs.iter().map(|(o, i)| (d.tags[*i], *o == p.at[*i] + 1)).collect();
    kinds.sort();
    kinds.dedup();
    let (tag, first) = *s.pick_some(&kinds)?;
    let these: Vec<(usize, usize)> = refs.iter().copied().filter(|(o, i)| d.tags[*i] == tag && (*o == p.at[*i] + 1) == first).collect();
    let used: Vec<(usize, usize)> = these.iter().copied().filter(|r| !by[r.1].is_empty()).collect();
    let (off, owner) = if used.is_empty() { *s.pick_some(&these)? } else { *s.pick(&used) };
    let mut to = owner;
    for _ in 0..1 + s.small(2) {
        match s.pick_some(&by[to]) {
            Some(k) => to = *k,
            None => break,
        }
    }
    put(b, off, 2, to as u64);
    Some(format!("constant {} refers to constant {} at {:#x}, a cycle", owner, to, off))
}

/// A class of nothing but a name, with a few things a module must or must not have.
fn bare(s: &mut Src, b: &mut Vec<u8>) -> String {
    let module = s.chance(3, 4);
    let major = if module { *s.pick(&[50u16, 52, 52, 53, 53, 54, 61]) } else { *s.pick(&[45, 49, 50, 51, 52, 61]) };
    let flags: u16 = match s.below(4) {
        0 if module => 0x8000 | 1 << s.below(15),
        _ if module => 0x8000,
        0 => 0x0601,
        _ => 0x21,
    };
    let sup = if module { s.chance(1, 4) } else { s.chance(9, 10) };
    let mut x = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, major as u8, 0, 9];
    for t in [&b"module-info"[..], b"java/lang/Object", b"I", b"()V"] {
        x.push(1);
        x.extend((t.len() as u16).to_be_bytes());
        x.extend(t);
    }
    x.extend([7, 0, 1, 7, 0, 2, 1, 0, 1, b'a', 1, 0, 9]);
    x.extend(b"Synthetic");
    x[9] = 9;
    x.extend(flags.to_be_bytes());
    x.extend([0, 5, 0, if sup { 6 } else { 0 }]);
    let one = if s.chance(2, 3) { s.below(4) } else { 9 };
    if one == 0 {
        x.extend([0, 1, 0, 6]);
    } else {
        x.extend([0, 0]);
    }
    for (k, desc) in [(1, 3u8), (2, 4)] {
        if one == k {
            let n = 1 + s.small(2) as u8;
            x.extend([0, n]);
            for i in 0..n {
                x.extend([if k == 2 { 4 } else { 0 }, if k == 2 { 1 } else { 9 }, 0, [7u8, 3, 2, 1][i as usize % 4], 0, desc, 0, 0]);
            }
        } else {
            x.extend([0, 0]);
        }
    }
    if one == 3 {
        x.extend([0, 1, 0, 8, 0, 0, 0, 0]);
    } else {
        x.extend([0, 0]);
    }
    *b = x;
    format!("nothing but a name left: version {}, flags {:#x}, superclass {}, one of {}", major, flags, sup, one)
}

/// What the rules about whole classes, versions and special methods are close to.
/// Tags at the ends of the ranges of known ones, and just past them.
const TAGS: [(&str, &[u8]); 7] = [
    ("typeannotation.target", &[0x01, 0x02, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x3f, 0x41, 0x42, 0x43, 0x46, 0x47, 0x4b, 0x4c, 0x4c, 0xff]),
    ("typeannotation.pathkind", &[3, 4, 4, 5, 0xff]),
    ("verification.tag", &[6, 7, 8, 9, 9, 0xff]),
    ("frame.tag", &[63, 64, 127, 128, 128, 246, 246, 247, 248, 250, 251, 252, 254, 255]),
    ("element.tag", b"BCDFIJSZsec@[AaEbVL\0"),
    ("newarray", &[3, 3, 4, 11, 12, 12, 0, 0xff]),
    ("methodhandle.kind", &[0, 1, 4, 5, 6, 7, 8, 9, 10, 10]),
];

fn rule_edge(s: &mut Src, b: &mut Vec<u8>, d: &Decoded2) -> Option<String> {
    let mut p = Pool::of(b, d)?;
    let module = get(b, p.end, 2) & 0x8000 != 0;
    let field = |role: &str| d.map.iter().find(|f| f.role == role).map(|f| f.off as usize);
    if s.chance(1, 4) {
        // a tag moves to or just past the end of a range of known ones
        let f = pick_field(s, &d.map, &|f| TAGS.iter().any(|t| t.0 == f.role))?;
        let known = TAGS.iter().find(|t| t.0 == f.role)?.1;
        let to = *s.pick(known);
        put(b, f.off as usize, 1, to as u64);
        return Some(format!("{} becomes {:#x}", f.role, to));
    }
    match s.below(if module { 7 } else { 16 }) {
        0 | 1 if module => {
            put(b, 6, 2, *s.pick(&[50u64, 52, 52, 53, 54, 55]));
            Some("a module of another version".into())
        }
        2 if module => {
            let flags = get(b, p.end, 2) ^ (1 << s.below(16));
            let end = p.end;
            put(b, end, 2, flags);
            Some("a module with other flags".into())
        }
        3 | 4 if module => {
            let to = p.of_kind(s, &[7])?;
            let end = p.end;
            put(b, end + 4, 2, to as u64);
            Some("a module with a superclass".into())
        }
        5 if module => {
            let end = p.end;
            put(b, end, 2, 0x0001);
            Some("no module any more".into())
        }
        6 if module => Some(bare(s, b)),
        13..=14 => Some(bare(s, b)),
        12 => {
            // a long constant with one slot only
            p.add(&[5 + s.below(2) as u8, 0, 0, 0, 0, 0, 0, 0, 1])?;
            p.next -= 1;
            p.finish(b);
            Some("half a wide constant at the end".into())
        }
        0 => {
            let end = p.end;
            put(b, end, 2, 0x8000);
            if s.chance(1, 2) {
                put(b, end + 4, 2, 0);
            }
            if s.chance(1, 2) {
                put(b, 6, 2, *s.pick(&[52u64, 53, 54, 61]));
            }
            Some("becomes a module".into())
        }
        1 => {
            put(b, 6, 2, *s.pick(&[44u64, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 60, 65, 70]));
            Some("another version".into())
        }
        2..=5 => {
            // a constant around the version that brought it
            const NEW: [(u8, u64); 7] = [(15, 51), (16, 51), (17, 55), (18, 51), (19, 53), (20, 53), (15, 52)];
            let now = get(b, 6, 2);
            let newer: Vec<(u8, u64)> = NEW.iter().copied().filter(|n| n.1 > now).collect();
            let stay = !newer.is_empty() && s.chance(1, 2);
            let (tag, since) = if stay { *s.pick(&newer) } else { *s.pick(&NEW) };
            let mut x = vec![tag];
            let two = |x: &mut Vec<u8>, v: usize| x.extend((v as u16).to_be_bytes());
            match tag {
                15 => {
                    // a static or special method of an interface since 52
                    let to = p.of_kind(s, if since == 52 { &[11] } else { &[9, 10] })?;
                    x.push(match p.d.tags[to] {
                        9 => 1,
                        _ => 6,
                    });
                    two(&mut x, to);
                }
                16 => {
                    let t = p.add_text(b"()V")?;
                    two(&mut x, t);
                }
                17 | 18 => {
                    let (n, t) = (p.add_text(b"a")?, p.add_text(if tag == 17 { b"I" } else { b"()V" })?);
                    let nt = p.add(&[12, (n >> 8) as u8, n as u8, (t >> 8) as u8, t as u8])?;
                    two(&mut x, 0);
                    two(&mut x, nt);
                }
                _ => {
                    let t = p.add_text(b"a")?;
                    two(&mut x, t);
                }
            }
            p.add(&x)?;
            match s.below(5) {
                0 if stay => put(b, 6, 2, since),
                1 | 2 if stay => put(b, 6, 2, since - 1),
                _ if stay => {}
                _ => put(b, 6, 2, since - s.below(2) as u64),
            }
            p.finish(b);
            Some(format!("a constant of kind {} in version {}", tag, get(b, 6, 2)))
        }
        6..=9 => {
            // a method with a special name
            let names: Vec<Field> = d.map.iter().filter(|f| f.role == "method.name").copied().collect();
            let f = *s.pick_some(&names)?;
            let name = *s.pick(&[&b"<clinit>"[..], b"<clinit>", b"<clinit>", b"<init>", b"<init>", b"<x>", b"<clinit>x", b"a<", b">a", b"<"]);
            let desc = *s.pick(&[&b"()V"[..], b"(I)V", b"()I", b"(LA;)V", b"()LA;", b"()[V"]);
            let (n, t) = (p.add_text(name)?, p.add_text(desc)?);
            put(b, f.off as usize, 2, n as u64);
            put(b, f.off as usize + 2, 2, t as u64);
            if s.chance(2, 3) {
                put(b, 6, 2, *s.pick(&[45u64, 50, 50, 51, 51, 52]));
            }
            p.finish(b);
            Some(format!("a method is called {} {}", show(name), show(desc)))
        }
        _ => {
            // a dynamic constant and the last bootstrap method
            let n = d.recs.iter().filter(|r| r.list == "BootstrapMethods").count() as u64;
            let role = *s.pick(&["indy.bootstrap", "dynamic.bootstrap"]);
            let off = field(role)?;
            let v = match s.below(4) {
                0 => n.saturating_sub(1),
                1 => n + 1,
                2 => 65535,
                _ => n,
            };
            put(b, off, 2, v);
            Some(format!("{} becomes {} of {}", role, v, n))
        }
    }
}

/// Changes a text, and nothing else, without changing its length: what an editor of the file would do.
pub fn touch(s: &mut Src, b: &mut Vec<u8>) -> Option<String> {
    let map = decode(b, true).map;
    let texts: Vec<Field> = map.iter().filter(|f| f.kind == FK::Text && f.len > 0 && !KEEP.contains(&&b[f.off as usize..(f.off + f.len) as usize])).copied().collect();
    // every other time something that looks like a descriptor or a class name
    let telling: Vec<Field> = texts.iter().filter(|f| b[f.off as usize..(f.off + f.len) as usize].iter().any(|c| b"(;[/".contains(c))).copied().collect();
    let f = if !telling.is_empty() && s.chance(1, 2) { *s.pick(&telling) } else { *s.pick_some(&texts)? };
    let (off, len) = (f.off as usize, f.len as usize);
    let alike: Vec<Field> = texts.iter().filter(|g| g.len == f.len && g.off != f.off).copied().collect();
    if !alike.is_empty() && s.chance(1, 4) {
        // the words of two constants change places
        let g = s.pick(&alike).off as usize;
        for i in 0..len {
            b.swap(off + i, g + i);
        }
        return Some(format!("the texts at {:#x} and {:#x} change places", off, g));
    }
    let at = off + if s.chance(1, 2) { len - 1 } else { s.index(len) };
    let new = *s.pick(b"IVJ;[/().<>LaQ");
    let old = std::mem::replace(&mut b[at], new);
    Some(format!("text at {:#x}: byte {:#x} becomes {:?} (was {:#x})", off, at, new as char, old))
}

/// Appends many copies of one constant to the pool.
fn more_constants(s: &mut Src, b: &mut Vec<u8>, map: &[Field]) -> Option<String> {
    let end = map.iter().find(|f| f.role == "class.flags")?.off as usize;
    let mut tags: Vec<usize> = map.iter().filter(|f| f.role == "cp.tag").map(|f| f.off as usize).collect();
    let kinds: std::collections::BTreeSet<u8> = tags.iter().map(|t| b[*t]).collect();
    let kind = *s.pick_some(&kinds.into_iter().collect::<Vec<u8>>())?;
    tags.push(end);
    let all: Vec<(usize, usize)> = tags.windows(2).filter(|w| b[w[0]] == kind).map(|w| (w[0], w[1])).collect();
    let (from, to) = *s.pick(&all);
    let slots = if matches!(kind, 5 | 6) { 2 } else { 1 };
    let count = get(b, 8, 2);
    let want = *s.pick(&[1000u64, 16384, 32768, 40000, 65535]);
    let n = (want.saturating_sub(count) / slots).min((400_000 / (to - from)) as u64);
    if n == 0 {
        return None;
    }
    let x = b[from..to].repeat(n as usize);
    b.splice(end..end, x);
    put(b, 8, 2, count + n * slots);
    Some(format!("{} more constants of kind {}", n, kind))
}

/// Makes one list of the image a very long one, by repeating an element of it. Whether the result is
/// valid is for the decoder to say.
pub fn lengthen(s: &mut Src, b: &mut Vec<u8>, modest: bool) -> Option<String> {
    let d = decode(b, true);
    let mut lists: Vec<&'static str> = Vec::new();
    for r in d.recs.iter().filter(|r| r.len > 0 && r.list != "method" && r.list != "field") {
        if !lists.contains(&r.list) {
            lists.push(r.list);
        }
    }
    if !modest && s.chance(1, 6) {
        return more_constants(s, b, &d.map);
    }
    if lists.is_empty() {
        return None;
    }
    let list = *s.pick(&lists);
    let all: Vec<&crate::dec::Rec> = d.recs.iter().filter(|r| r.list == list && r.len > 0).collect();
    let r = *s.pick(&all);
    let (off, len) = (r.off as usize, r.len as usize);
    let (co, cw) = (r.count_off as usize, r.count_width as usize);
    let count = get(b, co, cw);
    let want: u64 = if cw == 1 {
        *s.pick(&[127u64, 128, 254, 255])
    } else if modest {
        *s.pick(&[64u64, 127, 128, 255, 256, 257])
    } else {
        *s.pick(&[255u64, 256, 257, 1023, 4096, 6554, 8191, 8192, 8193, 9363, 10922, 10923, 13107, 13108, 16383, 16384, 16385, 21845, 21846, 32767, 32768, 32769, 40000, 65534, 65535])
    };
    let want = want.min(count + (if modest { 20_000 } else { 400_000 } / len) as u64);
    if want <= count {
        return None;
    }
    let more = (want - count) as usize;
    if r.inside.iter().any(|l| get(b, *l as usize, 4) + (more * len) as u64 > u32::MAX as u64) {
        return None;
    }
    for l in &r.inside {
        let v = get(b, *l as usize, 4) + (more * len) as u64;
        put(b, *l as usize, 4, v);
    }
    put(b, co, cw, want);
    let x = b[off..off + len].repeat(more);
    b.splice(off + len..off + len, x);
    Some(format!("{} {} in the list at {:#x}", want, list, co))
}

/// Makes one text of the image a very long one, by repeating a piece of it.
pub fn stretch(s: &mut Src, b: &mut Vec<u8>) -> Option<String> {
    let d = decode(b, true);
    let texts: Vec<Field> = d.map.iter().filter(|f| f.role == "utf8.bytes" && f.len > 0).copied().collect();
    if texts.is_empty() {
        return None;
    }
    let f = *s.pick(&texts);
    let old = b[f.off as usize..(f.off + f.len) as usize].to_vec();
    let start = |k: usize| old.get(k).is_none_or(|c| c & 0xc0 != 0x80);
    let from = (0..=s.index(old.len())).rev().find(|k| start(*k)).unwrap_or(0);
    let to = (from + 1 + s.small(10) as usize..=old.len()).find(|k| start(*k)).unwrap_or(old.len());
    let piece = old[from..to].to_vec();
    let want = *s.pick(&[255usize, 256, 1000, 4096, 16384, 32767, 32768, 65535]);
    let times = want.saturating_sub(old.len()) / piece.len();
    let mut t = old.clone();
    t.splice(to..to, piece.repeat(times));
    if times == 0 || !set_text(b, &f, &t) {
        return None;
    }
    Some(format!("text at {:#x} is stretched to {} bytes", f.off, t.len()))
}

/// Names with a meaning of their own.
const KEEP: [&[u8]; 33] = [
    b"AnnotationDefault", b"BootstrapMethods", b"Code", b"ConstantValue", b"Deprecated", b"EnclosingMethod", b"Exceptions", b"InnerClasses", b"LineNumberTable", b"LocalVariableTable", b"LocalVariableTypeTable",
    b"MethodParameters", b"Module", b"ModuleMainClass", b"ModulePackages", b"NestHost", b"NestMembers", b"PermittedSubclasses", b"Record", b"RuntimeInvisibleAnnotations", b"RuntimeInvisibleParameterAnnotations",
    b"RuntimeInvisibleTypeAnnotations", b"RuntimeVisibleAnnotations", b"RuntimeVisibleParameterAnnotations", b"RuntimeVisibleTypeAnnotations", b"Signature", b"SourceDebugExtension", b"SourceFile", b"StackMapTable",
    b"Synthetic", b"<init>", b"<clinit>", b"module-info",
];
/// The same image with other words in it: every lower-case letter of its texts is another one. It has the
/// same shape and needs the same memory.
pub fn reworded(b: &[u8], by: u8) -> Vec<u8> {
    let mut out = b.to_vec();
    for f in decode(b, true).map.iter().filter(|f| f.kind == FK::Text) {
        let (off, n) = (f.off as usize, f.len as usize);
        if KEEP.contains(&&b[off..off + n]) {
            continue;
        }
        for c in &mut out[off..off + n] {
            if c.is_ascii_lowercase() {
                *c = b'a' + (*c - b'a' + by) % 26;
            }
        }
    }
    out
}
