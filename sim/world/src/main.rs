//! The simulator's command line.
mod adapter;
mod alloc;
mod corpus;
mod props;
mod sched;
mod shm;
mod shrink;
mod steps;
mod sys;
mod validate;
mod values;
mod world;

use shm::{shm, ShmTape};
use simkit::fault;
use simkit::hash::Digest;
use simkit::src::{mix, Src};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

/// Where the choices of a run come from.
#[derive(Clone)]
pub enum Choices {
    Seed(u64),
    List(Vec<u32>),
}
#[derive(Clone)]
pub enum Schedule {
    Seed(u64),
    List(Vec<(u32, u32)>),
}
#[derive(Clone)]
pub struct Case {
    pub prop: String,
    /// Selects the kind of world.
    pub run: u64,
    pub choices: Choices,
    pub schedule: Schedule,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    pub class: String,
    pub detail: String,
    pub flags: [bool; 3],
}

pub fn seeds(seed: u64, prop: &str, run: u64) -> (u64, u64) {
    let mut d = Digest::new();
    d.text(prop);
    d.word(seed);
    (mix(d.0, run * 2), mix(d.0, run * 2 + 1))
}

/// Runs one simulated process. None: nothing wrong.
pub fn execute(c: &Case, verbose: bool, cpu_s: i64) -> Option<Verdict> {
    let s = shm();
    s.clear();
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return Some(Verdict { class: "harness".into(), detail: "cannot fork".into(), flags: [false; 3] });
    }
    if pid == 0 {
        sys::arm(cpu_s, 100);
        sys::silence_stderr();
        world::install_panic_hook();
        if verbose {
            world::set_verbose();
        }
        match &c.schedule {
            Schedule::Seed(x) => {
                let r = sched::random(*x);
                s.policy = r.kind() as u64;
                sched::set(sched::Policy::Random(r));
            }
            Schedule::List(l) => sched::set(sched::Policy::Replay { list: l.clone(), at: 0 }),
        }
        let mut tape = ShmTape;
        let mut src = match &c.choices {
            Choices::Seed(x) => Src::random(*x, Some(&mut tape)),
            Choices::List(l) => Src::replay(l.clone(), Some(&mut tape)),
        };
        let plan = world::draw_plan(&mut src, props::profile(&c.prop, c.run));
        world::simulate(plan);
        unsafe { sys::_exit(0) }
    }
    let mut status = 0;
    unsafe { sys::waitpid(pid, &mut status, 0) };
    if status == 0 && s.finished == 1 {
        return None;
    }
    let (sig, code) = (status & 0x7f, status >> 8 & 0xff);
    let flags = s.flags();
    let doing = s.doing(s.cur.min(7) as usize);
    Some(if code == 2 && s.violated == 1 {
        Verdict { class: s.class(), detail: format!("{} (while {})", s.detail(), doing), flags }
    } else if sig == 27 || sig == 14 || sig == 24 {
        Verdict { class: "hang".into(), detail: format!("no end after {} (while {})", if sig == 14 { "100 s".into() } else { format!("{} s of processor time", cpu_s) }, doing), flags }
    } else if sig != 0 {
        Verdict { class: "crash".into(), detail: format!("the process dies of signal {} (while {})", sig, doing), flags }
    } else {
        Verdict { class: "harness".into(), detail: format!("exit status {} (while {})", status, doing), flags }
    })
}

/// What a run comes to, for comparison with another build.
pub fn outcome(v: &Option<Verdict>) -> u64 {
    match v {
        None => shm().outcome,
        Some(v) => {
            let mut d = Digest::new();
            d.text(&v.class);
            d.0
        }
    }
}

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], name: &str, or: u64) -> u64 {
    arg(a, name).and_then(|x| x.parse().ok()).unwrap_or(or)
}
fn choices_digest() -> u64 {
    let mut d = Digest::new();
    for c in shm().choices() {
        d.word(*c as u64);
    }
    d.0
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_case(path: &str, c: &Case, v: &Verdict, trace: &str) {
    let mut o = String::from("cafebabe simulation replay 1\n");
    let _ = writeln!(o, "property {}", c.prop);
    let _ = writeln!(o, "run {}", c.run);
    let _ = writeln!(o, "class {}", v.class);
    let _ = writeln!(o, "detail {}", v.detail.escape_debug());
    match &c.schedule {
        Schedule::Seed(s) => {
            let _ = writeln!(o, "schedule-seed {}", s);
        }
        Schedule::List(l) => {
            o.push_str("schedule");
            for (a, b) in l {
                let _ = write!(o, " {}:{}", a, b);
            }
            o.push('\n');
        }
    }
    match &c.choices {
        Choices::Seed(s) => {
            let _ = writeln!(o, "choices-seed {}", s);
        }
        Choices::List(l) => {
            o.push_str("choices");
            for x in l {
                let _ = write!(o, " {}", x);
            }
            o.push('\n');
        }
    }
    o.push_str("trace\n");
    o.push_str(trace);
    let _ = std::fs::write(path, o);
}
pub fn read_case(path: &str) -> (Case, String) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| bail(&format!("{}: {}", path, e)));
    let mut c = Case { prop: String::new(), run: 0, choices: Choices::Seed(0), schedule: Schedule::Seed(0) };
    let mut class = String::new();
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => c.prop = v.into(),
            "run" => c.run = v.parse().unwrap_or(0),
            "class" => class = v.into(),
            "schedule-seed" => c.schedule = Schedule::Seed(v.parse().unwrap_or(0)),
            "schedule" => c.schedule = Schedule::List(v.split_whitespace().filter_map(|x| x.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect()),
            "choices-seed" => c.choices = Choices::Seed(v.parse().unwrap_or(0)),
            "choices" => c.choices = Choices::List(v.split_whitespace().filter_map(|x| x.parse().ok()).collect()),
            "trace" => break,
            _ => (),
        }
    }
    (c, class)
}
pub fn bail(s: &str) -> ! {
    eprintln!("world: {}", s);
    std::process::exit(3)
}

fn worker(a: &[String]) {
    let prop = arg(a, "--prop").unwrap_or_else(|| bail("--prop"));
    let seed = num(a, "--seed", 1);
    let (lane, lanes) = (num(a, "--lane", 0), num(a, "--lanes", 1));
    let (first, runs) = (num(a, "--first", 0), num(a, "--runs", 100));
    let seconds = num(a, "--seconds", 1000);
    let out = arg(a, "--out").unwrap_or_else(|| bail("--out"));
    let stop = arg(a, "--stop");
    let start = Instant::now();
    let mut counts = [0u64; shm::N_COUNT];
    let mut reasons: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut policies = [0u64; 5];
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_sample: BTreeMap<String, String> = BTreeMap::new();
    let (mut done, mut steps, mut ops, mut choices, mut lone_failed, mut rechecked, mut diverged) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut bin: Vec<u8> = Vec::new();
    let mut found = None;
    let mut i = first + lane;
    while i < first + runs {
        if start.elapsed().as_secs() >= seconds || stop.as_ref().is_some_and(|f| std::path::Path::new(f).exists()) {
            break;
        }
        let (ps, ss) = seeds(seed, &prop, i);
        let mut case = Case { prop: prop.clone(), run: i, choices: Choices::Seed(ps), schedule: Schedule::Seed(ss) };
        let v = execute(&case, false, 10);
        let s = shm();
        done += 1;
        steps += s.steps;
        ops += s.ops;
        choices += s.n_choices as u64;
        lone_failed += s.lone_failed as u64;
        policies[(s.policy as usize).min(4)] += 1;
        for k in 0..shm::N_COUNT {
            counts[k] += s.counts[k];
        }
        for r in s.noted() {
            *reasons.entry(r).or_default() += 1;
        }
        let oc = outcome(&v);
        let loads = s.counts[world::C_FIRST + world::N::Loads as usize] + s.counts[world::C_FIRST + world::N::Bursts as usize];
        for x in [i, choices_digest(), s.shape, oc, loads] {
            bin.extend(x.to_le_bytes());
        }
        if i % 61 == 0 && v.is_none() {
            let before = (s.steps, s.shape, s.outcome, s.counts, s.n_choices, s.ops);
            let again = execute(&case, false, 10);
            let s = shm();
            rechecked += 1;
            if again.is_some() || before != (s.steps, s.shape, s.outcome, s.counts, s.n_choices, s.ops) {
                diverged += 1;
            }
        }
        if let Some(v) = v {
            if v.class == "harness" {
                bail(&format!("run {}: {}", i, v.detail));
            }
            if props::concerns(&prop, &v.class, v.flags) {
                case.choices = Choices::List(shm().choices().to_vec());
                write_case(&format!("{}.case", out), &case, &v, "");
                if let Some(f) = &stop {
                    let _ = std::fs::write(f, "");
                }
                found = Some((i, v));
                break;
            }
            let k = other.entry(v.class.clone()).or_default();
            *k += 1;
            other_sample.entry(v.class.clone()).or_insert(format!("run {}: {}", i, v.detail));
        }
        i += lanes;
    }
    let mut o = String::from("{");
    let _ = write!(o, "\"runs\":{},\"steps\":{},\"ops\":{},\"choices\":{},\"lone_failed\":{},\"rechecked\":{},\"diverged\":{},\"seconds\":{:.3}", done, steps, ops, choices, lone_failed, rechecked, diverged, start.elapsed().as_secs_f64());
    let _ = write!(o, ",\"shareable\":{},\"threadsafe\":{}", world::SHAREABLE, world::THREADSAFE);
    o.push_str(",\"sites\":{");
    for (k, n) in ["allocation", "deallocation", "before lock", "lock taken", "unlock", "atomic", "yield", "client", "blocked", "exit", "start"].iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, esc(n), counts[world::C_SITE + k]);
    }
    o.push_str("},\"faults\":{");
    for (k, n) in fault::KINDS.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, esc(n), counts[world::C_FAULT + k]);
    }
    o.push_str("},\"counts\":{");
    for (k, n) in world::NAMES.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, esc(n), counts[world::C_FIRST + k]);
    }
    o.push_str("},\"policies\":{");
    for (k, n) in sched::POLICIES.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, esc(n), policies[k]);
    }
    o.push_str("},\"reasons\":{");
    for (k, (n, c)) in reasons.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, esc(n), c);
    }
    o.push_str("},\"other\":{");
    for (k, (n, c)) in other.iter().enumerate() {
        let _ = write!(o, "{}{}:[{},{}]", if k > 0 { "," } else { "" }, esc(n), c, esc(&other_sample[n]));
    }
    o.push_str("},\"edges\":[");
    for (k, e) in shm::edges_taken().iter().enumerate() {
        let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, e);
    }
    let _ = write!(o, "],\"edges_total\":{}", steps::edges());
    o.push_str(",\"violation\":");
    match &found {
        None => o.push_str("null"),
        Some((i, v)) => {
            let _ = write!(o, "{{\"run\":{},\"class\":{},\"detail\":{}}}", i, esc(&v.class), esc(&v.detail));
        }
    }
    o.push_str("}\n");
    std::fs::write(format!("{}.bin", out), bin).unwrap_or_else(|e| bail(&e.to_string()));
    std::fs::write(format!("{}.json", out), o).unwrap_or_else(|e| bail(&e.to_string()));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "validate" => return validate::main(&a[1..]),
        "describe" => {
            println!("threadsafe {} shareable {}", world::THREADSAFE, world::SHAREABLE);
            return;
        }
        _ => (),
    }
    sys::fixed_addresses();
    shm::create();
    if steps::COUNTED {
        shm::create_edges();
    }
    match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "worker" => worker(&a),
        // one run, told in full
        "show" => {
            let prop = arg(&a, "--prop").unwrap_or_else(|| bail("--prop"));
            let run = num(&a, "--run", 0);
            let (ps, ss) = seeds(num(&a, "--seed", 1), &prop, run);
            let v = execute(&Case { prop, run, choices: Choices::Seed(ps), schedule: Schedule::Seed(ss) }, true, 10);
            println!("{:?}", v);
        }
        "seeds" => {
            let (p, s) = seeds(num(&a, "--seed", 1), &arg(&a, "--prop").unwrap_or_default(), num(&a, "--run", 0));
            println!("{} {}", p, s);
        }
        "outcome" => {
            let (c, _) = read_case(&a[2]);
            let v = execute(&c, false, 5);
            println!("{} {}", outcome(&v), v.map_or("fine".into(), |v| v.class));
        }
        "trace" => {
            let (c, _) = read_case(&a[2]);
            let _ = execute(&c, true, 10);
        }
        "replay" => {
            let (c, _) = read_case(&a[2]);
            let v = execute(&c, true, 10);
            match v {
                Some(v) if v.class == "harness" => bail(&v.detail),
                Some(v) if props::concerns(&c.prop, &v.class, v.flags) => {
                    println!("reproduced {}: {}", v.class, v.detail);
                    std::process::exit(1);
                }
                Some(v) => println!("another violation, of no concern to {}: {}: {}", c.prop, v.class, v.detail),
                None => println!("nothing wrong; outcome {:016x}", shm().outcome),
            }
        }
        "shrink" => shrink::main(&a[2], &a[3], num(&a, "--seconds", 20), arg(&a, "--partner")),
        _ => bail("what?"),
    }
    let _ = std::io::stdout().flush();
}
