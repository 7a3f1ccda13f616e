//! What each property's runs look like and which violations concern it.
use crate::alloc::Usage;
use crate::world::{fail, Model};

#[derive(Clone, Copy)]
pub struct Profile {
    pub clients: (u32, u32),
    /// Percentages.
    pub writer: u32,
    pub hostile: u32,
    pub damage: u32,
    pub big: u32,
    pub corpus: u32,
    /// Percentage of the big images that get a bulk of something.
    pub bulk: u32,
    pub no_bytecode: u32,
    pub burst: u32,
    pub idle: u32,
    pub stream: bool,
    pub torn_only: bool,
    pub versions: (u32, u32),
    pub rounds: (u32, u32),
    pub reads: (u32, u32),
    /// Weights: read again, list constants, format, look up, drop, keys, own descriptors, own lists.
    pub readers: [u32; 8],
    pub client_crash: bool,
    pub sweep: bool,
    pub settle: bool,
    pub phases: u32,
    /// The later phases use images with other words.
    pub reword: bool,
    /// Percentage of the images of which there are edited versions.
    pub edits: u32,
    // oracles
    pub verdicts: bool,
    pub content: bool,
    pub borrow: bool,
    pub constants: bool,
    pub memory: bool,
    pub steps: bool,
    pub options: bool,
    pub values: bool,
    pub lookup: bool,
    pub stable: bool,
    pub lone: bool,
    pub shareable: bool,
}
const BASE: Profile = Profile {
    clients: (1, 1),
    writer: 0,
    hostile: 0,
    damage: 0,
    big: 100,
    corpus: 6,
    bulk: 1,
    no_bytecode: 15,
    burst: 0,
    idle: 0,
    stream: false,
    torn_only: false,
    versions: (1, 6),
    rounds: (1, 8),
    reads: (0, 2),
    readers: [1, 2, 1, 1, 1, 0, 0, 0],
    client_crash: false,
    sweep: true,
    settle: false,
    phases: 1,
    reword: false,
    edits: 0,
    verdicts: false,
    content: false,
    borrow: false,
    constants: false,
    memory: false,
    steps: false,
    options: false,
    values: false,
    lookup: false,
    stable: false,
    lone: false,
    shareable: false,
};

/// `run`: some runs of a property use another world.
pub fn profile(id: &str, run: u64) -> Profile {
    let crowd = run % 4 == 3;
    let base = if crowd { Profile { clients: (2, 4), writer: 60, stream: true, versions: (2, 5), rounds: (1, 5), sweep: false, ..BASE } } else { BASE };
    match id {
        "C01" => Profile { hostile: 12, damage: 70, versions: if crowd { (2, 6) } else { (4, 12) }, rounds: if crowd { (1, 6) } else { (4, 12) }, readers: [1, 3, 3, 1, 1, 0, 0, 0], client_crash: true, ..base },
        "C02" => Profile {
            clients: (1, 3),
            writer: if run % 3 == 0 { 0 } else { 100 },
            stream: true,
            damage: if run % 3 == 0 { 80 } else { 25 },
            torn_only: true,
            versions: (1, 5),
            rounds: (2, 10),
            reads: (0, 1),
            sweep: run % 3 == 0,
            settle: true,
            verdicts: true,
            ..base
        },
        "C03" => Profile { damage: 25, reads: (0, 1), content: true, versions: (2, 8), rounds: (2, 8), ..base },
        "C04" => Profile { damage: 30, reads: (0, 1), no_bytecode: 5, content: true, verdicts: true, versions: (2, 8), rounds: (2, 8), readers: [1, 0, 0, 4, 1, 0, 0, 0], ..base },
        "C05" => Profile { hostile: 4, damage: 92, reads: (0, 0), verdicts: true, versions: if crowd { (2, 6) } else { (4, 12) }, rounds: if crowd { (2, 6) } else { (4, 12) }, ..base },
        "C06" => Profile { damage: 12, bulk: 5, reads: (0, 1), burst: 10, verdicts: true, corpus: 15, versions: (2, 8), rounds: (2, 8), ..base },
        "C07" => Profile {
            clients: (2, 4),
            writer: 30,
            damage: 20,
            big: 5,
            versions: (1, 3),
            rounds: (1, 4),
            reads: (1, 4),
            readers: [2, 6, 3, 3, 2, 0, 0, 0],
            client_crash: true,
            sweep: false,
            stable: true,
            lone: run % 2 == 0,
            shareable: true,
            ..base
        },
        "C08" => Profile { hostile: 3, clients: (1, 3), writer: 40, stream: false, damage: 45, big: 25, versions: (2, 4), rounds: (3, 12), reads: (0, 2), burst: 15, client_crash: true, sweep: false, stable: true, lone: true, edits: 50, ..base },
        "C09" => Profile { hostile: 20, damage: 70, reads: (0, 0), memory: true, clients: (1, 1), writer: 0, sweep: true, versions: (4, 12), rounds: (4, 12), ..base },
        "C10" => Profile { hostile: 5, damage: 45, big: 15, versions: (1, 5), rounds: (1, 6), reads: (0, 3), client_crash: true, phases: 4, reword: run % 3 != 0, burst: 5, ..base },
        "C11" => Profile { damage: 15, reads: (0, 1), readers: [0, 1, 0, 0, 0, 0, 0, 0], borrow: true, versions: (2, 8), rounds: (2, 8), ..base },
        "C12" => Profile { damage: 45, reads: (0, 0), options: true, no_bytecode: 50, clients: (1, 1), writer: 0, sweep: true, versions: (2, 8), rounds: (2, 8), ..base },
        "C13" => Profile { hostile: 6, damage: 55, clients: (1, 1), writer: 0, sweep: true, reads: (0, 2), readers: [1, 2, 0, 1, 1, 0, 0, 0], versions: (2, 8), rounds: (2, 8), no_bytecode: 30, ..base },
        "C14" => Profile { damage: 20, corpus: 10, reads: (1, 3), readers: [0, 8, 1, 0, 1, 0, 0, 0], client_crash: true, constants: true, stable: true, ..base },
        "C15" => Profile { damage: 10, big: 10, versions: (1, 2), rounds: (1, 2), reads: (4, 16), readers: [0, 0, 0, 2, 1, 0, 0, 6], lookup: true, ..base },
        "C16" => Profile { damage: 5, big: 10, versions: (1, 2), rounds: (1, 2), reads: (3, 8), readers: [0, 0, 0, 0, 1, 0, 12, 0], ..base },
        "C18" => Profile {
            damage: 30,
            big: 30,
            clients: (1, 3),
            writer: 20,
            sweep: false,
            versions: (2, 5),
            rounds: (2, 6),
            reads: (1, 3),
            readers: [0, 0, 0, 0, 1, 8, 1, 0],
            reword: false,
            values: true,
            ..base
        },
        "C17" => Profile { hostile: 12, damage: 35, big: 100, bulk: 25, corpus: 2, reads: (0, 2), readers: [0, 2, 0, 0, 1, 0, 0, 0], steps: true, clients: (1, 1), writer: 0, stream: false, sweep: true, versions: (1, 4), rounds: (1, 4), ..base },
        _ => fail("harness", "unknown property"),
    }
}

/// Whether a violation concerns the property. `flags`: the image was valid, torn, broken only inside
/// method bodies.
pub fn concerns(id: &str, class: &str, flags: [bool; 3]) -> bool {
    let [valid, torn, code] = flags;
    let down = matches!(class, "crash" | "panic" | "hang" | "deadlock" | "memory-ceiling" | "formatting");
    match id {
        "C01" => down,
        "C02" => class == "accept-torn" || class == "reject-valid" || class == "reject-valid-code" || down && (torn || valid),
        "C03" => class == "content" || down && valid,
        "C04" => matches!(class, "content-code" | "lookup" | "reject-valid-code" | "accept-invalid-code") || down && (valid || code),
        "C05" => matches!(class, "accept-invalid" | "accept-invalid-code" | "accept-torn") || down && !valid,
        "C06" => matches!(class, "reject-valid" | "reject-valid-code") || down && valid,
        "C07" => matches!(class, "unstable" | "history" | "not-shareable" | "deadlock") || down && valid,
        "C08" => matches!(class, "history" | "unstable") || down,
        "C09" => matches!(class, "memory" | "memory-ceiling"),
        "C10" => class == "leak",
        "C17" => class == "slow" || class == "hang",
        "C11" => class == "not-borrowed",
        "C15" => class == "lookup" || down && valid,
        "C16" | "C18" => class == "value" || down && valid,
        "C12" => class == "option" || down && valid,
        "C13" => class == "variants",
        "C14" => matches!(class, "constants" | "unstable") || down && valid,
        _ => false,
    }
}

/// Memory in use while an image is parsed has to be explained by its length and by what it really
/// contains (at least twice what the unchanged library needs, see DESIGN.md).
pub fn judge_memory(m: &Model, u: &Usage) {
    let (len, facts) = (m.bytes.len() as u64, m.dec.toks.len() as u64);
    let peak = (640 << 10) + 400 * len + 150 * facts + 8 * m.dec.owned;
    let largest = (96 << 10) + 200 * len + 60 * facts + 4 * m.dec.owned;
    if std::env::var_os("SIM_MEASURE").is_some() {
        crate::sys::write_out(format!("{} {} {} {} {} {:.3} {:.3}\n", len, facts, m.dec.owned, u.peak, u.largest, u.peak as f64 / peak as f64, u.largest as f64 / largest as f64).as_bytes());
    }
    if u.largest > largest {
        fail("memory", &format!("{} bytes are requested at once for an image of {} bytes with {} facts", u.largest, len, facts));
    }
    if u.peak > peak {
        fail("memory", &format!("{} bytes are in use at once for an image of {} bytes with {} facts", u.peak, len, facts));
    }
}

/// How many steps something may take: proportional to the length of the image and to what it contains.
pub fn step_limit(m: &Model) -> u64 {
    if m.dec.unknown {
        return u64::MAX;
    }
    let (len, facts, reach) = (m.bytes.len() as u64, m.dec.toks.len() as u64 + m.dec.consts.len() as u64, m.dec.reach);
    1_000_000 + 300 * (len + facts + reach)
}
pub fn tell_steps(what: &str, m: &Model, n: u64) {
    if std::env::var_os("SIM_MEASURE").is_some() {
        let (len, facts, reach) = (m.bytes.len() as u64, m.dec.toks.len() as u64 + m.dec.consts.len() as u64, m.dec.reach);
        crate::sys::write_out(format!("steps {} {} {} {} {} {} {:.4}\n", what, m.dec.reject.is_none(), len, facts, reach, n, n as f64 / step_limit(m) as f64).as_bytes());
    }
}
