//! One simulated execution: a disk with class images, a writer node, client nodes that load, read,
//! list, format and drop classes, and the oracles.
use crate::adapter::Walk;
use crate::alloc::{self, Lib};
use crate::props::{self, Profile};
use crate::sched;
use crate::steps;
use crate::shm::shm;
use crate::sys;
use crate::values::{clones, judge_errors, Assembly, Offsets, Table};
use cafebabe::attributes::AttributeData;
use cafebabe::{parse_class, parse_class_with_options, ClassFile, ParseError, ParseOptions};
use simkit::dec::{self, Decoded, Verdict};
use simkit::fault;
use simkit::gen;
use simkit::hash::{of_bytes, Digest};
use simkit::src::Src;
use simkit::tok::{Comparer, Diff, Hasher, Sink};
use simstd::sim::{self, Site};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

// ------------------------------------------------------------------------------------- counters
pub const C_SITE: usize = 0;
pub const C_FAULT: usize = 12;
pub const C_FIRST: usize = C_FAULT + fault::KINDS.len();
macro_rules! counters {
    ($($name:ident $text:literal),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        pub enum N { $($name),* }
        pub const NAMES: &[&str] = &[$($text),*];
    };
}
counters! {
    Loads "loads",
    Accepted "loads accepted",
    Rejected "loads rejected",
    Undecided "loads beyond the reference decoder",
    TornLoads "loads of a torn image",
    DamagedLoads "loads of a damaged image",
    ValidLoads "loads of a valid image",
    NoBytecode "loads without bytecode",
    Tokens "reported facts compared",
    Borrowed "strings checked for borrowing",
    Instructions "instructions compared",
    Walks "later readings of a class",
    Lists "constant listings completed",
    ListsCut "constant listings abandoned",
    ListsTwo "pairs of interleaved listings",
    Debugs "classes formatted",
    DebugErr "formatting stopped by a failing sink",
    Finds "instruction lookups",
    Drops "classes dropped",
    Bursts "repeated parses",
    Rereads "parses in a buffer that held another image",
    ListsWays "constant listings in several ways",
    ClientCrash "client crashes inside a reading",
    Puts "files replaced",
    Appends "streamed chunks written",
    WriterCrash "writer crashes in the middle of a file",
    Shared "classes published to other nodes",
    SharedReads "readings of a class another node loaded",
    Lone "outcomes taken in a process of their own",
    Leaks "memory balances taken",
    Peaks "peak measurements",
    Threads "nodes started",
    Switches "context switches",
    Reseeded "hash seeds drawn",
    Clock "readings of a clock by the library",
    Counted "step counts taken",
    LibSteps "steps counted inside the library",
    Values "values compared, displayed or made by clients",
}
pub fn count(n: N, by: u64) {
    shm().counts[C_FIRST + n as usize] += by;
}

// ---------------------------------------------------------------------------------- violations
/// Ends the simulated process.
pub fn fail(class: &str, detail: &str) -> ! {
    let _l = Lib::leave();
    let s = shm();
    if s.violated == 0 {
        let t = s.cur.min(7) as usize;
        s.set_violation(class, detail);
        log(|| format!("!! {}: {} (while {})", class, detail, s.doing(t)));
    }
    unsafe { sys::_exit(2) }
}
fn too_much(n: usize) {
    fail("memory-ceiling", &format!("{} bytes are requested or in use at once", n));
}
fn slow() {
    fail("slow", "the number of steps is out of proportion to the length of the image and what it contains");
}
fn stuck(why: &str) {
    fail("deadlock", why);
}

static mut VERBOSE: bool = false;
pub fn set_verbose() {
    unsafe { VERBOSE = true }
}
pub fn log(f: impl FnOnce() -> String) {
    if unsafe { VERBOSE } {
        let who = match sim::tid() {
            Some(t) => format!("node {}", t),
            None => "world".into(),
        };
        let line = format!("[{:>6}] {}: {}\n", shm().steps, who, f());
        sys::write_out(line.as_bytes());
    }
}

struct ClientCrash;

/// Runs library code.
fn lib<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _l = Lib::enter();
        f()
    }));
    match r {
        Ok(v) => Ok(v),
        Err(e) if e.is::<ClientCrash>() => {
            count(N::ClientCrash, 1);
            log(|| "client crashes".into());
            Err(())
        }
        Err(_) => fail("panic", "the library panicked"),
    }
}
pub fn sure<R>(f: impl FnOnce() -> R) -> R {
    lib(f).unwrap_or_else(|_| fail("harness", "unexpected crash"))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let what = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let place = info.location().map(|l| l.to_string()).unwrap_or_default();
        let class = if alloc::in_lib() && !place.starts_with("src/") && !place.contains("/simkit/") { "panic" } else { "harness" };
        fail(class, &format!("{} at {}", what, place));
    }));
    unsafe { alloc::ON_CEILING = Some(too_much) }
    sim::install(sched::chooser, stuck);
}

// --------------------------------------------------------------------------------------- model
pub struct Model {
    pub dec: Decoded<'static>,
    pub bytes: &'static [u8],
    pub key: u64,
}
static mut MODELS: BTreeMap<u64, &'static Model> = BTreeMap::new();
#[allow(static_mut_refs)]
fn model(b: &[u8]) -> &'static Model {
    let key = of_bytes(b);
    if let Some(m) = unsafe { MODELS.get(&key) } {
        return m;
    }
    let bytes: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    let m: &'static Model = Box::leak(Box::new(Model { dec: dec::decode(bytes, false), bytes, key }));
    unsafe { MODELS.insert(key, m) };
    m
}

// ----------------------------------------------------------------------------------------- plan
pub struct Version {
    pub bytes: Vec<u8>,
    /// The same with other words (see `Profile::reword`).
    pub again: Vec<Vec<u8>>,
    /// Others of the same length (see `Profile::edits`).
    pub edits: Vec<Vec<u8>>,
    pub notes: Vec<String>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// The file is emptied first.
    Fresh,
    /// The old content is overwritten from the start and cut at the end.
    InPlace,
    /// The space is reserved (zeroes) first.
    Reserved,
    /// More than the image is written, and the rest cut off later.
    Beyond,
}
#[derive(Clone, Debug)]
pub enum Listing {
    Full,
    Partial(u32),
    Crash(u32),
    Two(u32),
    /// Through the other methods of the iterator.
    Ways(u32),
}
#[derive(Clone, Copy, Debug)]
pub enum End {
    Whole,
    Error(u32),
    Crash(u32),
}
#[derive(Clone, Debug)]
pub enum Op {
    Put { file: usize, version: usize },
    Stream { file: usize, version: usize, mode: Mode, cuts: Vec<u32>, stop_after: Option<usize> },
    Load { file: usize, slot: usize, bytecode: bool },
    Burst { file: usize, bytecode: bool, times: u32 },
    /// A client with a single buffer reads a file that is edited between its visits.
    Reread { version: usize, picks: Vec<usize>, bytecode: bool },
    Walk { slot: usize },
    List { slot: usize, how: Listing },
    Debug { slot: usize, end: End, pretty: bool },
    Find { slot: usize, salt: u32 },
    /// Names and descriptors of everything loaded become keys of a table.
    Keys { salt: u32 },
    /// Descriptors of the client's own.
    Assemble(Assembly),
    /// An instruction list of the client's own.
    Offsets(Offsets),
    Drop { slot: usize },
}
pub struct Plan {
    pub prof: Profile,
    pub versions: Vec<Version>,
    /// initial content of each file
    pub files: Vec<usize>,
    /// node 0 is the writer if there is one
    pub writer: bool,
    pub nodes: Vec<Vec<Op>>,
    pub share: bool,
    pub hash_seed: u64,
    pub shift: usize,
    pub list_first: bool,
}
pub const SLOTS: usize = 4;
const EXTRA: [u8; 24] = *b"\xca\xfe\xba\xbe\0\0\0\x3d\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";

fn draw_version(s: &mut Src, p: &Profile, before: &[Version]) -> Version {
    let mut notes = Vec::new();
    // A file system sometimes brings back something it already had.
    let mut bytes = if !before.is_empty() && s.chance(1, 6) {
        let k = s.index(before.len());
        notes.push(format!("again version {}", k));
        before[k].bytes.clone()
    } else if s.chance(p.hostile, 100) {
        let k = s.index(gen::HOSTILE.len());
        notes.push(format!("byzantine writer: {}", gen::HOSTILE[k]));
        gen::hostile_image(s, k)
    } else if p.corpus > 0 && !crate::corpus::ALL.is_empty() && s.chance(p.corpus, 100) {
        let k = s.index(crate::corpus::ALL.len());
        notes.push(format!("compiled class {}", crate::corpus::ALL[k].0));
        crate::corpus::ALL[k].1.to_vec()
    } else {
        let big = s.chance(p.big, 100);
        let bulk = big && s.chance(p.bulk, 100);
        let m = if bulk && s.chance(1, 2) {
            gen::Mix::bulk(s)
        } else if big {
            gen::Mix::draw(s)
        } else {
            gen::Mix::small(s)
        };
        let mut b = gen::class_image(s, m);
        if bulk {
            let plain = b.clone();
            let note = match s.below(4) {
                0 => None,
                1 => fault::stretch(s, &mut b),
                _ => fault::lengthen(s, &mut b, false),
            };
            let second = if s.chance(1, 3) { fault::lengthen(s, &mut b, false) } else { None };
            let d = dec::decode(&b, false);
            if d.unknown || d.reach > 3_000_000 || d.toks.len() > 1_500_000 {
                // too much for the harness
                b = plain;
            } else {
                notes.extend(note.into_iter().chain(second));
            }
        } else if s.chance(1, 30) {
            notes.extend(fault::lengthen(s, &mut b, true));
        }
        b
    };
    if s.chance(p.damage, 100) {
        let other: Vec<u8> = match before.last() {
            Some(v) => v.bytes.clone(),
            None => EXTRA.to_vec(),
        };
        let n = 1 + s.below(8).saturating_sub(4).min(2);
        for _ in 0..n {
            let kind = if p.torn_only { *s.pick(&fault::TORN) } else { fault::draw_kind(s) };
            if let Some(note) = fault::inject(s, kind, &mut bytes, &other) {
                shm().counts[C_FAULT + kind] += 1;
                notes.push(format!("{}: {}", fault::KINDS[kind], note));
            }
        }
    }
    let again = if p.reword { (1..=2).map(|k| fault::reworded(&bytes, k)).collect() } else { Vec::new() };
    let mut edits: Vec<Vec<u8>> = Vec::new();
    if bytes.len() < 20_000 && s.chance(p.edits, 100) {
        for _ in 0..1 + s.below(3) {
            let mut e = match s.below(8) {
                0 => fault::reworded(&bytes, 1),
                _ => bytes.clone(),
            };
            let note = match s.below(8) {
                0..=4 => fault::touch(s, &mut e),
                k => {
                    let kind = *s.pick(&[&[5usize, 6, 7, 20][..], &[4, 8, 9][..], &[13, 18, 20][..]][k as usize - 5]);
                    fault::inject(s, kind, &mut e, &EXTRA)
                }
            };
            if e.len() == bytes.len() && e != bytes {
                notes.push(format!("edit {}: {}", edits.len() + 1, note.unwrap_or_else(|| "other words".into())));
                edits.push(e);
            }
        }
    }
    Version { bytes, again, edits, notes }
}

fn draw_stream(s: &mut Src, file: usize, version: usize) -> Op {
    let mode = *s.pick(&[Mode::Fresh, Mode::InPlace, Mode::Reserved, Mode::Beyond]);
    let n = 1 + s.small(8);
    let mut cuts: Vec<u32> = (0..n)
        .map(|_| match s.below(4) {
            0 => s.below(64),
            1 => 1_000_000 - s.below(12),
            _ => 1000 + s.below(900_000),
        })
        .collect();
    cuts.sort_unstable();
    let stop_after = if s.chance(1, 5) { Some(s.index(n as usize)) } else { None };
    Op::Stream { file, version, mode, cuts, stop_after }
}

fn draw_reader(s: &mut Src, p: &Profile) -> Op {
    let slot = s.index(SLOTS);
    let total: u32 = p.readers.iter().sum();
    let mut k = s.below(total.max(1));
    let mut which = 0;
    while which + 1 < p.readers.len() && k >= p.readers[which] {
        k -= p.readers[which];
        which += 1;
    }
    match which {
        0 => Op::Walk { slot },
        1 => Op::List {
            slot,
            how: match s.below(10) {
                4 => Listing::Partial(s.below(40)),
                5 if p.client_crash => Listing::Crash(s.below(40)),
                6 | 7 => Listing::Two(s.below(12)),
                8 | 9 => Listing::Ways(s.small(40)),
                _ => Listing::Full,
            },
        },
        2 => Op::Debug {
            slot,
            end: match s.below(8) {
                4 | 5 => End::Error(s.below(6000)),
                6 | 7 if p.client_crash => End::Crash(s.below(6000)),
                _ => End::Whole,
            },
            pretty: s.chance(1, 3),
        },
        3 => Op::Find { slot, salt: s.below(1 << 16) },
        5 => Op::Keys { salt: s.below(1 << 16) },
        6 => Op::Assemble(Assembly::draw(s)),
        7 => Op::Offsets(Offsets::draw(s)),
        _ => Op::Drop { slot },
    }
}

pub fn draw_plan(s: &mut Src, prof: Profile) -> Plan {
    let p = prof;
    let hash_seed = s.u64();
    let shift = s.index(8);
    let n_versions = s.range(p.versions.0, p.versions.1) as usize;
    let mut versions: Vec<Version> = Vec::new();
    for _ in 0..n_versions {
        let v = draw_version(s, &p, &versions);
        versions.push(v);
    }
    let clients = s.range(p.clients.0, p.clients.1) as usize;
    let writer = p.writer > 0 && s.chance(p.writer, 100);
    let n_files = if writer { 1 + s.index(n_versions.min(3)) } else { n_versions };
    let files: Vec<usize> = (0..n_files).collect();
    let mut nodes = Vec::new();
    if writer {
        let n = 1 + s.small(10);
        let mut ops = Vec::new();
        for _ in 0..n {
            let (file, version) = (s.index(n_files), s.index(n_versions));
            ops.push(if p.stream && s.chance(3, 4) { draw_stream(s, file, version) } else { Op::Put { file, version } });
        }
        nodes.push(ops);
    }
    let share = clients > 1 && s.chance(7, 8);
    let list_first = s.chance(1, 2);
    for c in 0..clients {
        let mut ops = Vec::new();
        let rounds = s.range(p.rounds.0, p.rounds.1) as usize;
        let first = if c == 0 { 0 } else { s.index(n_files) };
        for r in 0..rounds {
            // most rounds load something; the first client gets round to every file
            if r == 0 && c == 0 || !s.chance(p.idle, 100) {
                let file = if p.sweep { (first + r) % n_files } else { s.index(n_files) };
                let bytecode = !s.chance(p.no_bytecode, 100);
                if s.chance(p.burst, 100) {
                    let times = if s.chance(1, 25) {
                        *s.pick(&[1025, 5000, 32769, 70_000])
                    } else if s.chance(1, 4) { *s.pick(&[17, 33, 65, 100, 101, 129, 257, 300]) } else { 1 + s.small(12) };
                    ops.push(Op::Burst { file, bytecode, times });
                }
                ops.push(Op::Load { file, slot: s.index(SLOTS), bytecode });
                if p.edits > 0 && s.chance(1, 3) {
                    let v = s.index(n_versions);
                    let n = versions[v].edits.len();
                    if n > 0 {
                        let picks = (0..2 + s.small(6)).map(|_| s.index(n + 1)).collect();
                        ops.push(Op::Reread { version: v, picks, bytecode: true });
                    }
                }
            }
            for _ in 0..s.range(p.reads.0, p.reads.1) {
                ops.push(draw_reader(s, &p));
            }
        }
        nodes.push(ops);
    }
    count(N::Reseeded, 1);
    Plan { prof, versions, files, writer, nodes, share, hash_seed, shift, list_first }
}

// ---------------------------------------------------------------------------------------- world
struct File {
    bytes: Vec<u8>,
    /// By construction not a complete image: a proper prefix of a valid one, or one with bytes added.
    torn: bool,
}

/// A loaded class and the buffer it points into (dropped in this order).
pub struct Loaded {
    class: ClassFile<'static>,
    image: Box<[u8]>,
    from: usize,
    model: &'static Model,
    bytecode: bool,
    digest: u64,
    consts: std::cell::Cell<u64>,
    owner: usize,
    valid: bool,
    lone: bool,
}
// Only ever shared when the library says its types may be (see `shareable`).
unsafe impl Send for Loaded {}
unsafe impl Sync for Loaded {}
impl Loaded {
    fn image(&self) -> &[u8] {
        &self.image[self.from..]
    }
    fn class(&self) -> &'static ClassFile<'static> {
        // the slot keeps it alive while it is read
        unsafe { std::mem::transmute::<&ClassFile<'static>, &'static ClassFile<'static>>(&self.class) }
    }
}

struct World {
    plan: &'static Plan,
    files: Vec<File>,
    shared: [Option<Arc<Loaded>>; SLOTS],
    lone: BTreeMap<(u64, bool), [u64; 2]>,
    /// Which wording of the images is in use.
    wording: usize,
    /// Distance of the images from the beginning of their buffers.
    shift: usize,
}
impl World {
    fn bytes_of(&self, version: usize) -> Cow<'static, [u8]> {
        let v = &self.plan.versions[version];
        match self.wording {
            k if k > 0 && k <= v.again.len() => Cow::Borrowed(&v.again[k - 1]),
            k if k > 0 && !v.again.is_empty() => Cow::Owned(fault::reworded(&v.bytes, k as u8)),
            _ => Cow::Borrowed(&v.bytes),
        }
    }
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Not for Probe<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
pub const SHAREABLE: bool = Probe::<ClassFile<'static>>::SEND && Probe::<ClassFile<'static>>::SYNC && Probe::<ParseError>::SEND && Probe::<ParseError>::SYNC;
pub const THREADSAFE: bool = cfg!(feature = "threadsafe");

struct Node {
    me: usize,
    own: [Option<Arc<Loaded>>; SLOTS],
    /// The last error it got.
    error: Option<(ParseError, String)>,
}

pub fn client_point() {
    let _l = Lib::leave();
    sim::yield_point(Site::Client);
}

/// Lets other nodes run between the facts a client reads.
struct Slow<'a, S: Sink>(&'a mut S);
impl<S: Sink> Sink for Slow<'_, S> {
    fn open(&mut self, l: &'static str) {
        client_point();
        self.0.open(l);
    }
    fn close(&mut self) {
        self.0.close();
    }
    fn num(&mut self, l: &'static str, v: i64) {
        self.0.num(l, v);
    }
    fn str(&mut self, l: &'static str, s: &str, inside: bool) {
        self.0.str(l, s, inside);
    }
    fn raw(&mut self, l: &'static str, b: &[u8], inside: bool) {
        self.0.raw(l, b, inside);
    }
    fn more(&self) -> bool {
        self.0.more()
    }
}
struct Both<'a, A: Sink, B: Sink>(&'a mut A, &'a mut B);
impl<A: Sink, B: Sink> Sink for Both<'_, A, B> {
    fn open(&mut self, l: &'static str) {
        self.0.open(l);
        self.1.open(l);
    }
    fn close(&mut self) {
        self.0.close();
        self.1.close();
    }
    fn num(&mut self, l: &'static str, v: i64) {
        self.0.num(l, v);
        self.1.num(l, v);
    }
    fn str(&mut self, l: &'static str, s: &str, inside: bool) {
        self.0.str(l, s, inside);
        self.1.str(l, s, inside);
    }
    fn raw(&mut self, l: &'static str, b: &[u8], inside: bool) {
        self.0.raw(l, b, inside);
        self.1.raw(l, b, inside);
    }
    fn more(&self) -> bool {
        self.0.more() || self.1.more()
    }
}
/// Everything but the instructions.
struct NoCode<'a, S: Sink> {
    to: &'a mut S,
    depth: u32,
    found: bool,
}
impl<S: Sink> Sink for NoCode<'_, S> {
    fn open(&mut self, l: &'static str) {
        if self.depth > 0 || l == "bytecode" {
            self.depth += 1;
            self.found = true;
        } else {
            self.to.open(l);
        }
    }
    fn close(&mut self) {
        if self.depth > 0 {
            self.depth -= 1;
        } else {
            self.to.close();
        }
    }
    fn num(&mut self, l: &'static str, v: i64) {
        if self.depth == 0 {
            self.to.num(l, v);
        }
    }
    fn str(&mut self, l: &'static str, s: &str, inside: bool) {
        if self.depth == 0 {
            self.to.str(l, s, inside);
        }
    }
    fn raw(&mut self, l: &'static str, b: &[u8], inside: bool) {
        if self.depth == 0 {
            self.to.raw(l, b, inside);
        }
    }
}

struct Paper {
    left: u32,
    end: End,
    written: u64,
    broke: bool,
}
impl std::fmt::Write for Paper {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _l = Lib::leave();
        sim::yield_point(Site::Client);
        self.written += s.len() as u64;
        if s.len() as u32 > self.left {
            self.broke = true;
            if let End::Crash(_) = self.end {
                resume_unwind(Box::new(ClientCrash));
            }
            return Err(std::fmt::Error);
        }
        self.left -= s.len() as u32;
        Ok(())
    }
}

fn error_digest(e: &ParseError) -> (u64, String) {
    let mut t = String::new();
    let ok = sure(|| write!(t, "{}", e).is_ok() && write!(t, " / {:?}", e).is_ok());
    if !ok {
        fail("formatting", "an error cannot be formatted");
    }
    let mut d = Digest::new();
    d.word(0xe44);
    d.text(&t);
    (d.0, t)
}
fn walk_digest(class: &ClassFile, image: &[u8]) -> u64 {
    let mut h = Hasher::default();
    sure(|| Walk::new(image, &mut h).class(class));
    h.d.0
}
fn list_digest(class: &'static ClassFile<'static>, image: &[u8]) -> u64 {
    let mut h = Hasher::default();
    sure(|| {
        let mut w = Walk::new(image, &mut h);
        for c in class.constantpool_iter() {
            w.constant(&c);
        }
    });
    h.d.0
}
fn options(bytecode: bool) -> ParseOptions {
    let mut o = ParseOptions::default();
    o.parse_bytecode(bytecode);
    o
}
/// A copy of the image at an address of its own.
fn buffer(b: &[u8], shift: usize) -> (Box<[u8]>, usize) {
    let mut v = Vec::with_capacity(b.len() + shift);
    v.resize(shift, 0xAA);
    v.extend_from_slice(b);
    (v.into_boxed_slice(), shift)
}
pub fn parse(image: &[u8], bytecode: bool) -> Result<ClassFile<'static>, ParseError> {
    let image: &'static [u8] = unsafe { std::slice::from_raw_parts(image.as_ptr(), image.len()) };
    // every way of asking for it
    let way = CALLS.fetch_add(1, Relaxed) % 5;
    if bytecode && way == 1 {
        return sure(|| parse_class(image));
    }
    let o = match way {
        2 => {
            let mut o = options(!bytecode);
            o.parse_bytecode(bytecode).parse_bytecode(bytecode);
            o
        }
        3 if bytecode => ParseOptions::default(),
        _ => options(bytecode),
    };
    sure(|| parse_class_with_options(image, &o))
}
static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn discard<T>(x: T) {
    sure(move || drop(x));
}

/// What a process that does nothing else sees: the reading and the listing of one image.
pub fn lone_outcome(b: &[u8], bytecode: bool) -> [u64; 2] {
    let (buf, from) = buffer(b, 3);
    let out = match parse(&buf[from..], bytecode) {
        Ok(c) => {
            let w = walk_digest(&c, &buf[from..]);
            let r: &'static ClassFile<'static> = unsafe { std::mem::transmute(&c) };
            let l = list_digest(r, &buf[from..]);
            discard(c);
            [w, l]
        }
        Err(e) => {
            let d = error_digest(&e).0;
            discard(e);
            [d, 0]
        }
    };
    out
}

fn judge_content(n: &Loaded, prof: &Profile, d: &Model) -> u64 {
    let mut h = Hasher::default();
    let image = n.image();
    if prof.content || prof.borrow {
        let mut c = Comparer::new(&d.dec.toks, !n.bytecode, prof.content, prof.borrow);
        sure(|| Walk::new(image, &mut Both(&mut c, &mut h)).class(&n.class));
        c.finish();
        count(N::Tokens, c.compared);
        count(N::Borrowed, c.borrowed);
        if n.bytecode {
            count(N::Instructions, d.dec.ops);
        }
        if let Some((kind, text)) = c.diff {
            let class = match kind {
                Diff::NotBorrowed => "not-borrowed",
                Diff::Content if text.split(':').next().unwrap_or("").contains("/bytecode") => "content-code",
                Diff::Content => "content",
            };
            fail(class, &text);
        }
    } else {
        sure(|| Walk::new(image, &mut h).class(&n.class));
    }
    h.d.0
}

impl Node {
    fn doing(&self, s: &str, valid: bool, torn: bool, code: bool) {
        crate::sched::op_starts();
        sys::again();
        shm().now(self.me, s, valid, torn, code);
    }
    fn shared(&self) -> bool {
        world().plan.share && THREADSAFE && SHAREABLE
    }
    fn slot(&mut self, at: usize) -> &mut Option<Arc<Loaded>> {
        if self.shared() {
            &mut world().shared[at]
        } else {
            &mut self.own[at]
        }
    }
    /// Some occupied slot, preferably the given one.
    fn hold(&mut self, at: usize) -> Option<Arc<Loaded>> {
        for k in 0..SLOTS {
            if let Some(l) = self.slot((at + k) % SLOTS) {
                let l = l.clone();
                if l.owner != self.me {
                    count(N::SharedReads, 1);
                }
                return Some(l);
            }
        }
        None
    }
    fn release(&self, l: Arc<Loaded>) {
        if Arc::strong_count(&l) == 1 {
            count(N::Drops, 1);
            self.doing("dropping a class", l.valid, false, false);
        }
        // the last reader runs the library's destructors
        discard(l);
    }

    fn load(&mut self, file: usize, slot: usize, bytecode: bool) {
        let w = world();
        let prof = w.plan.prof;
        let (snapshot, torn) = (&w.files[file].bytes, w.files[file].torn);
        let m = model(snapshot);
        let verdict = m.dec.verdict(bytecode);
        let valid = verdict == Verdict::Accept;
        let code = m.dec.reject.is_none() && m.dec.bytecode_reject.is_some();
        let (image, from) = buffer(snapshot, w.shift);
        count(N::Loads, 1);
        if !bytecode {
            count(N::NoBytecode, 1);
        }
        if torn {
            count(N::TornLoads, 1);
        } else if valid {
            count(N::ValidLoads, 1);
        } else {
            count(N::DamagedLoads, 1);
        }
        if let Verdict::Reject(r) = verdict {
            shm().reason(r);
        }
        self.doing(&format!("loading file {} ({} bytes, bytecode {})", file, m.bytes.len(), bytecode), valid, torn, code);
        let before = alloc::reset_peak();
        let (parsed, n) = steps::within(if prof.steps { props::step_limit(m) } else { u64::MAX }, slow, || parse(&image[from..], bytecode));
        if prof.steps {
            count(N::Counted, 1);
            count(N::LibSteps, n);
            props::tell_steps("parse", m, n);
        }
        if prof.memory {
            count(N::Peaks, 1);
            props::judge_memory(m, &alloc::usage(before));
        }
        let lone = w.lone.get(&(m.key, bytecode)).copied();
        let (digest, said) = match parsed {
            Err(e) => {
                count(N::Rejected, 1);
                let (d, text) = error_digest(&e);
                if prof.values {
                    let again = parse(&image[from..], bytecode);
                    match &again {
                        Err(x) => judge_errors(&e, x, &text, self.error.as_ref()),
                        Ok(_) => fail("history", "an image is rejected and then accepted"),
                    }
                    discard(again);
                    if let Some((old, _)) = self.error.replace((e, text.clone())) {
                        discard(old);
                    }
                } else {
                    discard(e);
                }
                log(|| format!("loads file {} (bytecode {}): rejected, {}", file, bytecode, text));
                if prof.verdicts && valid {
                    // did only the instructions displease?
                    let class = if bytecode && m.dec.ops > 0 && {
                        let again = parse(&image[from..], false);
                        let ok = again.is_ok();
                        discard(again);
                        ok
                    } {
                        "reject-valid-code"
                    } else {
                        "reject-valid"
                    };
                    fail(class, &format!("a valid image of {} bytes (bytecode {}) is rejected: {}", m.bytes.len(), bytecode, text));
                }
                if prof.options {
                    self.other_option(&image[from..], bytecode, Err(&text), m);
                }
                (d, None)
            }
            Ok(class) => {
                count(N::Accepted, 1);
                if let Verdict::Either(_) = verdict {
                    count(N::Undecided, 1);
                }
                let cut = prof.torn_only && matches!(verdict, Verdict::Reject("image ends too early" | "bytes after the end of the class"));
                if prof.verdicts && (torn || cut) {
                    fail("accept-torn", &format!("{} bytes are accepted although the image is not complete or has bytes after its end", m.bytes.len()));
                }
                if let (true, Verdict::Reject(r)) = (prof.verdicts, verdict) {
                    fail(if code { "accept-invalid-code" } else { "accept-invalid" }, &format!("an image of {} bytes (bytecode {}) is accepted although it breaks a rule: {}", m.bytes.len(), bytecode, r));
                }
                let owner = self.me;
                let mut n = Loaded { class, image, from, model: m, bytecode, digest: 0, consts: Default::default(), owner, valid, lone: lone.is_some() };
                self.doing("reading what was loaded", valid, torn, code);
                n.digest = if matches!(verdict, Verdict::Accept) { judge_content(&n, &prof, m) } else { walk_digest(&n.class, n.image()) };
                if w.plan.list_first {
                    n.consts.set(list_digest(n.class(), n.image()));
                }
                if prof.options {
                    self.other_option(n.image(), bytecode, Ok(&n), m);
                }
                log(|| format!("loads file {} (bytecode {}): accepted, {} bytes, reading {:016x}", file, bytecode, n.image().len(), n.digest));
                (n.digest, Some(n))
            }
        };
        if let Some([d, l]) = lone {
            let differs = d != digest || said.as_ref().is_some_and(|n| n.consts.get() != 0 && n.consts.get() != l);
            if differs {
                fail("history", &format!("an image of {} bytes (bytecode {}) gives a different outcome than in a process that does nothing else", m.bytes.len(), bytecode));
            }
            if let Some(n) = &said {
                n.consts.set(l);
            }
        }
        let mut d = Digest(shm().outcome);
        d.word(digest);
        shm().outcome = d.0;
        if let Some(n) = said {
            if self.shared() {
                count(N::Shared, 1);
            }
            let n = Arc::new(n);
            let old = self.slot(slot).replace(n);
            if let Some(old) = old {
                self.release(old);
            }
        }
    }

    fn other_option(&self, image: &[u8], bytecode: bool, got: Result<&Loaded, &str>, m: &Model) {
        self.doing("loading the same image with the other option", m.dec.verdict(!bytecode) == Verdict::Accept, false, false);
        let other = parse(image, !bytecode);
        let say = |on: bool| if on { "with bytecode" } else { "without bytecode" };
        let reading = |c: &ClassFile| {
            let mut h = Hasher::default();
            let mut n = NoCode { to: &mut h, depth: 0, found: false };
            sure(|| Walk::new(image, &mut n).class(c));
            let found = n.found;
            (h.d.0, found)
        };
        match (&got, &other) {
            (Ok(a), Ok(b)) => {
                let (x, y) = (reading(&a.class), reading(b));
                if x.0 != y.0 {
                    fail("option", "what is reported besides the instructions depends on whether bytecode is parsed");
                }
                let (on, off) = if bytecode { (x.1, y.1) } else { (y.1, x.1) };
                if off {
                    fail("option", "instructions are reported although bytecode was switched off");
                }
                if !on && m.dec.bodies > 0 {
                    fail("option", "no instructions are reported although bytecode was switched on");
                }
                let r: &'static ClassFile<'static> = unsafe { std::mem::transmute(b) };
                if list_digest(a.class(), image) != list_digest(r, image) {
                    fail("option", "the constant listing depends on whether bytecode is parsed");
                }
            }
            (Err(e), Ok(_)) if !bytecode => fail("option", &format!("the image is accepted with bytecode but rejected without: {}", e)),
            (Ok(_), Err(e)) if bytecode => {
                let (_, e) = error_digest(e);
                fail("option", &format!("the image is accepted with bytecode but rejected without: {}", e))
            }
            (Ok(_), Err(_)) | (Err(_), Ok(_)) if m.dec.bytecode_reject.is_none() && m.dec.gray.is_none() && !m.dec.unknown => {
                fail("option", &format!("the image is rejected {} and accepted {} although its method bodies follow the rules", say(true), say(false)))
            }
            _ => (),
        }
        discard(other);
    }

    fn burst(&mut self, file: usize, bytecode: bool, times: u32) {
        let w = world();
        let m = model(&w.files[file].bytes);
        let valid = m.dec.verdict(bytecode) == Verdict::Accept;
        let code = m.dec.reject.is_none() && m.dec.bytecode_reject.is_some();
        let torn = w.files[file].torn;
        let (image, from) = buffer(m.bytes, w.shift);
        let mut first = None;
        // long ones only of short images
        let work = if times > 1000 { 6_000_000 } else { 400_000 };
        let times = times.min(2 + work / (m.bytes.len() as u32 + m.dec.toks.len() as u32 * 8 + 1));
        let mut said = None;
        for k in 0..times {
            count(N::Bursts, 1);
            self.doing("parsing the same image again and again", valid, torn, code);
            let p = parse(&image[from..], bytecode);
            if w.plan.prof.verdicts && valid && p.is_err() {
                fail("reject-valid", "a valid image is rejected after it was parsed before");
            }
            let ok = p.is_ok();
            if w.plan.prof.stable && *first.get_or_insert(ok) != ok {
                fail("history", "the same image is sometimes accepted and sometimes rejected");
            }
            if w.plan.prof.stable && (k < 2 || k + 1 == times || !ok) {
                let d = match &p {
                    Ok(c) => walk_digest(c, &image[from..]),
                    Err(e) => error_digest(e).0,
                };
                if *said.get_or_insert(d) != d {
                    fail("history", "the same image comes to something else when it is parsed again");
                }
            }
            discard(p);
            sim::yield_point(Site::Client);
        }
    }

    fn reread(&mut self, version: usize, picks: &[usize], bytecode: bool) {
        let w = world();
        let v = &w.plan.versions[version];
        let (mut image, from) = buffer(&v.bytes, w.shift);
        for k in picks {
            let m = model(if *k == 0 { &v.bytes } else { &v.edits[*k - 1] });
            image[from..].copy_from_slice(m.bytes);
            count(N::Rereads, 1);
            self.doing("reading a file that is edited in between", m.dec.verdict(bytecode) == Verdict::Accept, false, false);
            let image = &image[from..];
            let parsed = parse(image, bytecode);
            let got = match &parsed {
                Ok(c) => {
                    let r: &'static ClassFile<'static> = unsafe { std::mem::transmute(c) };
                    [walk_digest(c, image), list_digest(r, image)]
                }
                Err(e) => [error_digest(e).0, 0],
            };
            log(|| format!("reads version {} edit {} into the same buffer: {:016x}", version, k, got[0]));
            discard(parsed);
            if w.lone.get(&(m.key, bytecode)).is_some_and(|x| *x != got) {
                fail("history", &format!("an image of {} bytes (bytecode {}), read into the buffer of another one, gives a different outcome than in a process that does nothing else", m.bytes.len(), bytecode));
            }
            sim::yield_point(Site::Client);
        }
    }

    fn walk(&mut self, slot: usize) {
        let Some(n) = self.hold(slot) else { return };
        self.doing("reading a class again", n.valid, false, false);
        count(N::Walks, 1);
        let mut h = Hasher::default();
        sure(|| Walk::new(n.image(), &mut Slow(&mut h)).class(&n.class));
        if h.d.0 != n.digest {
            fail("unstable", "a class reads differently than right after it was loaded");
        }
        log(|| format!("reads a class loaded by node {}: {:016x}", n.owner, h.d.0));
        self.release(n);
    }

    fn list(&mut self, slot: usize, how: &Listing) {
        let Some(n) = self.hold(slot) else { return };
        self.doing("listing constants", n.valid, false, false);
        let check = world().plan.prof.constants && n.valid;
        let borrow = world().plan.prof.borrow && n.valid;
        let exp = &n.model.dec.consts[..];
        let image = n.image();
        if let (Listing::Ways(k), true) = (how, exp.len() < 4000) {
            self.list_ways(&n, *k as usize);
            log(|| format!("lists constants of a class loaded by node {} in several ways", n.owner));
            self.release(n);
            return;
        }
        let mut one = Comparer::new(exp, false, check, borrow);
        let mut two = Comparer::new(exp, false, check, borrow);
        let mut h1 = Hasher::default();
        let mut h2 = Hasher::default();
        let class = n.class();
        let limit = if world().plan.prof.steps { props::step_limit(n.model) } else { u64::MAX };
        let (complete, steps) = steps::within(limit, slow, || lib(|| {
            let mut a = class.constantpool_iter();
            let mut b = match how {
                Listing::Two(_) => Some(class.constantpool_iter()),
                _ => None,
            };
            let mut seen = 0;
            let mut ended = false;
            loop {
                client_point();
                match how {
                    Listing::Partial(k) if seen >= *k => return false,
                    Listing::Crash(k) if seen >= *k => resume_unwind(Box::new(ClientCrash)),
                    _ => (),
                }
                if let (Some(it), Listing::Two(lag)) = (&mut b, how) {
                    if seen >= *lag {
                        if let Some(c) = it.next() {
                            Walk::new(image, &mut Both(&mut two, &mut h2)).constant(&c);
                        } else if ended {
                            return true;
                        }
                    }
                }
                if !ended {
                    match a.next() {
                        Some(c) => Walk::new(image, &mut Both(&mut one, &mut h1)).constant(&c),
                        None => ended = true,
                    }
                }
                if ended && b.is_none() {
                    return true;
                }
                seen += 1;
                if seen > 600_000 {
                    fail("constants", "the listing does not end");
                }
            }
        }));
        if world().plan.prof.steps {
            count(N::Counted, 1);
            count(N::LibSteps, steps);
            props::tell_steps("list", n.model, steps);
        }
        let odd = |c: &Comparer| match &c.diff {
            Some((Diff::NotBorrowed, t)) => fail("not-borrowed", t),
            Some((Diff::Content, t)) => fail("constants", t),
            None => count(N::Borrowed, c.borrowed),
        };
        if complete == Ok(true) {
            count(N::Lists, 1);
            one.finish();
            let judge = |c: &Comparer, h: &Hasher| {
                odd(c);
                if n.consts.get() == 0 {
                    n.consts.set(h.d.0);
                } else if n.consts.get() != h.d.0 {
                    fail(if n.lone { "history" } else { "unstable" }, "the constants of a class are listed differently than before");
                }
            };
            judge(&one, &h1);
            if let Listing::Two(_) = how {
                count(N::ListsTwo, 1);
                two.finish();
                judge(&two, &h2);
            }
        } else {
            count(N::ListsCut, 1);
            odd(&one);
        }
        log(|| format!("lists constants of a class loaded by node {} ({:?}): {:016x}", n.owner, how, h1.d.0));
        self.release(n);
    }

    /// The methods of an iterator have to agree about what it yields.
    fn list_ways(&self, n: &Loaded, k: usize) {
        count(N::ListsWays, 1);
        let (class, image) = (n.class(), n.image());
        let item = |c: cafebabe::constant_pool::ConstantPoolItem| {
            let mut h = Hasher::default();
            Walk::new(image, &mut h).constant(&c);
            h.d.0
        };
        let odd = sure(|| {
            let all: Vec<u64> = class.constantpool_iter().map(item).collect();
            let mut it = class.constantpool_iter();
            for i in 0..=all.len() {
                let (lo, hi) = it.size_hint();
                if lo > all.len() - i || hi.is_some_and(|h| h < all.len() - i) {
                    return Some("the listing announces another number of constants than it yields");
                }
                if it.next().map(item) != all.get(i).copied() {
                    return Some("two listings of the same constants differ");
                }
            }
            if it.next().is_some() {
                return Some("the listing goes on after its end");
            }
            client_point();
            let mut it = class.constantpool_iter();
            if it.nth(k).map(item) != all.get(k).copied() || it.next().map(item) != all.get(k + 1).copied() {
                return Some("the n-th constant is not the n-th one of the listing");
            }
            if class.constantpool_iter().count() != all.len() || class.constantpool_iter().skip(k).count() != all.len().saturating_sub(k) {
                return Some("the number of constants is not that of the constants listed");
            }
            if class.constantpool_iter().last().map(item) != all.last().copied() {
                return Some("the last constant is not the last one of the listing");
            }
            let mut h = Digest::new();
            let mut h2 = Digest::new();
            all.iter().for_each(|x| h.word(*x));
            class.constantpool_iter().for_each(|c| h2.word(item(c)));
            let mut it = class.constantpool_iter();
            let start: Vec<u64> = it.by_ref().take(k).map(item).collect();
            let rest: Vec<u64> = it.map(item).collect();
            if h.0 != h2.0 || [start, rest].concat() != all || class.constantpool_iter().step_by(k + 1).map(item).collect::<Vec<_>>() != all.iter().copied().step_by(k + 1).collect::<Vec<_>>() {
                return Some("the constants depend on the way they are asked for");
            }
            None
        });
        if let Some(t) = odd {
            fail("constants", t);
        }
    }

    fn debug(&mut self, slot: usize, end: End, pretty: bool) {
        let Some(n) = self.hold(slot) else { return };
        self.doing("formatting a class", n.valid, false, false);
        count(N::Debugs, 1);
        let left = match end {
            End::Whole => 1 << 20,
            End::Error(k) | End::Crash(k) => k,
        };
        let mut p = Paper { left, end, written: 0, broke: false };
        let r = lib(|| if pretty { write!(p, "{:#?}", n.class).is_ok() } else { write!(p, "{:?}", n.class).is_ok() });
        if p.broke && r == Ok(false) {
            count(N::DebugErr, 1);
        }
        if r == Ok(false) && !p.broke {
            fail("formatting", "a class cannot be formatted");
        }
        log(|| format!("formats a class loaded by node {} ({:?}): {} bytes", n.owner, end, p.written));
        self.release(n);
    }

    fn find(&mut self, slot: usize, salt: u32) {
        let Some(n) = self.hold(slot) else { return };
        self.doing("looking up instructions", n.valid, false, false);
        let judge = world().plan.prof.content || world().plan.prof.lookup;
        let mut rng = simkit::src::Rng::new(salt as u64);
        sure(|| {
            for m in &n.class.methods {
                for a in &m.attributes {
                    let AttributeData::Code(c) = &a.data else { continue };
                    let Some(b) = &c.bytecode else { continue };
                    let span = b.opcodes.last().map_or(1, |(o, _)| o + 3);
                    for k in 0..24 {
                        let at = match k {
                            0 => 0,
                            1 => span,
                            2 => usize::MAX,
                            3 => 65535,
                            k if k % 2 == 0 && !b.opcodes.is_empty() => b.opcodes[rng.below(b.opcodes.len() as u64) as usize].0,
                            _ => rng.below(span as u64) as usize,
                        };
                        let got = b.get_opcode_index(at);
                        let _l = Lib::leave();
                        count(N::Finds, 1);
                        let want = b.opcodes.iter().position(|(o, _)| *o == at);
                        if judge && got != want {
                            fail("lookup", &format!("the instruction at offset {} is said to be number {:?}, but it is {:?}", at, got, want));
                        }
                        if world().plan.prof.stable && got != want {
                            let again = (0..4).find_map(|_| {
                                let _l = Lib::enter();
                                Some(b.get_opcode_index(at)).filter(|x| *x != got)
                            });
                            if let Some(again) = again {
                                fail("unstable", &format!("the instruction at offset {} is said to be number {:?}, and then number {:?}", at, got, again));
                            }
                        }
                    }
                }
            }
        });
        self.release(n);
    }

    fn keys(&mut self, salt: u32) {
        let held: Vec<_> = (0..SLOTS).filter_map(|k| self.slot(k).clone()).collect();
        self.doing("using names and descriptors as keys", true, false, false);
        let mut t = Table::new();
        for n in &held {
            t.add(n.class());
        }
        t.judge(salt);
        if let Some(n) = held.get(salt as usize % held.len().max(1)) {
            clones(n.class(), unsafe { std::mem::transmute::<&[u8], &'static [u8]>(n.image()) }, salt);
        }
        log(|| format!("uses names and descriptors of {} classes as keys", held.len()));
        for n in held {
            self.release(n);
        }
    }

    fn assemble(&mut self, a: &Assembly) {
        let n = self.hold(a.slot());
        self.doing("putting descriptors together", true, false, false);
        let mut t = Table::new();
        if let Some(n) = &n {
            t.add(n.class());
        }
        a.run(&t.names);
        log(|| "has put descriptors together".into());
        if let Some(n) = n {
            self.release(n);
        }
    }

    fn offsets(&mut self, o: &Offsets) {
        self.doing("looking things up in an instruction list of its own", true, false, false);
        o.run();
        log(|| "has looked things up in an instruction list of its own".into());
    }

    fn drop_slot(&mut self, slot: usize) {
        if let Some(n) = self.slot(slot).take() {
            log(|| format!("lets go of a class loaded by node {}", n.owner));
            self.release(n);
        }
    }

    fn put(&mut self, file: usize, version: usize) {
        let w = world();
        w.files[file] = File { bytes: w.bytes_of(version).to_vec(), torn: false };
        count(N::Puts, 1);
        log(|| format!("file {} is replaced by version {}", file, version));
        sim::yield_point(Site::Client);
    }
    /// Writes an image piece by piece while others may read the file.
    fn stream(&mut self, file: usize, version: usize, mode: Mode, cuts: &[u32], stop_after: Option<usize>) {
        let w = world();
        let whole = w.bytes_of(version);
        let n = whole.len();
        let valid = model(&whole).dec.verdict(true) == Verdict::Accept;
        let f = &mut w.files[file];
        let mut ends: Vec<usize> = cuts.iter().map(|c| if *c < 64 { *c as usize } else if *c >= 999_000 { n.saturating_sub((1_000_000 - *c) as usize) } else { (*c as u64 * n as u64 / 1_000_000) as usize }).map(|c| c.min(n)).collect();
        ends.push(n);
        ends.sort_unstable();
        match mode {
            Mode::Fresh => f.bytes.clear(),
            Mode::Reserved => f.bytes = vec![0; n],
            Mode::InPlace | Mode::Beyond => (),
        }
        let old_len = f.bytes.len();
        let mut pos = 0;
        for (k, end) in ends.iter().enumerate() {
            let f = &mut world().files[file];
            let chunk = &whole[pos..*end];
            for (i, b) in chunk.iter().enumerate() {
                let at = pos + i;
                if at < f.bytes.len() {
                    f.bytes[at] = *b;
                } else {
                    f.bytes.push(*b);
                }
            }
            pos = *end;
            count(N::Appends, 1);
            // what is on the disk now
            f.torn = valid && if pos < n { mode == Mode::Fresh && f.bytes.len() == pos || f.bytes.len() < n && whole.starts_with(&f.bytes) } else { f.bytes.len() > n };
            log(|| format!("file {}: version {} written up to byte {} of {} ({:?})", file, version, pos, n, mode));
            sim::yield_point(Site::Client);
            if stop_after == Some(k) {
                count(N::WriterCrash, 1);
                log(|| format!("the writer of file {} crashes", file));
                return;
            }
        }
        if mode == Mode::Beyond {
            let f = &mut world().files[file];
            let extra = 1 + old_len % 23;
            f.bytes.truncate(n);
            f.bytes.extend(&EXTRA[..extra]);
            f.torn = valid;
            log(|| format!("file {}: {} more bytes than the image", file, extra));
            sim::yield_point(Site::Client);
        }
        let f = &mut world().files[file];
        f.bytes.truncate(n);
        f.torn = false;
        log(|| format!("file {}: version {} complete", file, version));
        sim::yield_point(Site::Client);
    }

    fn run(&mut self, ops: &[Op]) {
        for op in ops {
            sim::yield_point(Site::Client);
            let s = shm();
            s.ops += 1;
            match op {
                Op::Put { file, version } => self.put(*file, *version),
                Op::Stream { file, version, mode, cuts, stop_after } => self.stream(*file, *version, *mode, cuts, *stop_after),
                Op::Load { file, slot, bytecode } => self.load(*file, *slot, *bytecode),
                Op::Burst { file, bytecode, times } => self.burst(*file, *bytecode, *times),
                Op::Reread { version, picks, bytecode } => self.reread(*version, picks, *bytecode),
                Op::Walk { slot } => self.walk(*slot),
                Op::List { slot, how } => self.list(*slot, how),
                Op::Debug { slot, end, pretty } => self.debug(*slot, *end, *pretty),
                Op::Find { slot, salt } => self.find(*slot, *salt),
                Op::Keys { salt } => self.keys(*salt),
                Op::Assemble(a) => self.assemble(a),
                Op::Offsets(o) => self.offsets(o),
                Op::Drop { slot } => self.drop_slot(*slot),
            }
        }
        for k in 0..SLOTS {
            if let Some(n) = self.own[k].take() {
                self.release(n);
            }
        }
    }
}

fn start_files(w: &World) -> Vec<File> {
    w.plan.files.iter().map(|v| File { bytes: w.bytes_of(*v).to_vec(), torn: false }).collect()
}

fn phase() {
    let w = world();
    w.files = start_files(w);
    let n = w.plan.nodes.len();
    sim::prepare(n);
    count(N::Threads, n as u64);
    let hs: Vec<_> = (0..n)
        .map(|me| {
            let b = std::thread::Builder::new().stack_size(2 << 20);
            let b = if w.plan.hash_seed >> (8 + me) & 1 == 1 { b.name(["client", "worker", "main", "tokio-runtime-worker", "", "client"][(w.plan.hash_seed >> (16 + 3 * me)) as usize % 6].to_string()) } else { b };
            b.spawn(move || {
                sim::enter(me);
                Node { me, own: Default::default(), error: None }.run(&world().plan.nodes[me]);
                sim::leave(me);
            })
            .unwrap_or_else(|e| fail("harness", &format!("cannot start a thread: {}", e)))
        })
        .collect();
    sim::run();
    for h in hs {
        let _ = h.join();
    }
    // once everybody is done: after all the faults, the disk still serves every complete valid image
    let mut last = Node { me: 0, own: Default::default(), error: None };
    if w.plan.prof.phases > 1 && w.plan.hash_seed & 1 == 0 {
        // the same work again in a thread that lives on
        w.files = start_files(w);
        for ops in &w.plan.nodes {
            last.run(ops);
        }
    }
    if w.plan.prof.settle {
        for f in 0..w.files.len() {
            last.load(f, 0, true);
            last.put(f, w.plan.files[f]);
            last.load(f, 0, true);
        }
        last.run(&[]);
    }
    for k in 0..SLOTS {
        if let Some(l) = w.shared[k].take() {
            last.release(l);
        }
    }
}

pub fn describe_plan(p: &Plan) {
    log(|| format!("hash seed {:016x}, images placed {} bytes off", p.hash_seed, p.shift));
    for (i, v) in p.versions.iter().enumerate() {
        let d = dec::decode(&v.bytes, false);
        log(|| format!("version {}: {} bytes, {:?}{}", i, v.bytes.len(), d.verdict(true), v.notes.iter().map(|n| format!("; {}", n)).collect::<String>()));
        if v.bytes.len() <= 4000 {
            log(|| format!("version {} is {}", i, v.bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()));
        }
    }
    for (i, ops) in p.nodes.iter().enumerate() {
        for o in ops {
            log(|| format!("node {}{} will {:?}", i, if p.writer && i == 0 { " (writer)" } else { "" }, o));
        }
    }
}

/// The body of a simulated process.
pub fn simulate(plan: Plan) {
    let plan: &'static Plan = Box::leak(Box::new(plan));
    describe_plan(plan);
    unsafe { WORLD = Some(World { plan, files: Vec::new(), shared: Default::default(), lone: BTreeMap::new(), wording: 0, shift: plan.shift }) };
    let s = shm();
    if plan.prof.shareable && THREADSAFE && !SHAREABLE {
        fail("not-shareable", "in the threadsafe configuration a loaded class or an error cannot be sent to or shared with another thread");
    }
    if plan.prof.lone {
        let mut n = 0;
        let images = plan.versions.iter().flat_map(|v| std::iter::once((&v.bytes, &[true, false][..])).chain(v.edits.iter().map(|e| (e, &[true][..]))));
        for (bytes, options) in images {
            for bytecode in options.iter().copied() {
                let key = of_bytes(bytes);
                if world().lone.contains_key(&(key, bytecode)) || n + 2 > crate::shm::MAX_LONE {
                    continue;
                }
                s.lone[n] = u64::MAX;
                let pid = unsafe { sys::fork() };
                if pid == 0 {
                    sys::arm(10, 60);
                    sys::seed_entropy(plan.hash_seed ^ (0x1000 + n as u64));
                    s.now(0, "loading in a process of its own", model(bytes).dec.verdict(bytecode) == Verdict::Accept, false, false);
                    let o = std::thread::Builder::new().stack_size(2 << 20).spawn({ let b = bytes.clone(); move || lone_outcome(&b, bytecode) }).unwrap().join().unwrap();
                    s.lone[n] = o[0];
                    s.lone[n + 1] = o[1];
                    unsafe { sys::_exit(0) }
                }
                let mut status = 0;
                unsafe { sys::waitpid(pid, &mut status, 0) };
                if status != 0 {
                    // it fails on its own already: not a matter of history
                    s.violated = 0;
                    s.lone_failed = 1;
                    s.finished = 1;
                    unsafe { sys::_exit(0) }
                }
                count(N::Lone, 1);
                world().lone.insert((key, bytecode), [s.lone[n], s.lone[n + 1]]);
                n += 2;
            }
        }
    }
    sys::seed_entropy(plan.hash_seed);
    let mut live = Vec::new();
    // what is set up once and kept is no leak: if something stays, the work has to be done more often
    let more = |live: &[i64]| live.len() < plan.prof.phases as usize || plan.prof.phases >= 4 && live[3] > live[1] && live.len() < 10;
    while more(&live) {
        let k = live.len();
        // twice the same work, then the same work on images with other words in them
        world().wording = if plan.prof.reword && k >= 2 { k - 1 } else { 0 };
        // and never twice at the same addresses
        world().shift = plan.shift + 40 * k;
        phase();
        live.push(alloc::LIVE.load(Relaxed));
        if plan.prof.phases > 1 {
            count(N::Leaks, 1);
        }
    }
    if live.len() == 10 && (3..10).step_by(2).filter(|k| live[*k] > live[*k - 2]).count() >= 3 {
        fail("leak", &format!("the same work was done ten times, each time everything was dropped (and then done with other names in the images); bytes that are still allocated: {:?}", live));
    }
    log(|| format!("end; outcome {:016x}", s.outcome));
    s.finished = 1;
}
