//! Makes a failing run smaller: fewer choices, simpler choices, fewer context switches.
use crate::shm::shm;
use crate::{execute, outcome, props, read_case, write_case, Case, Choices, Schedule, Verdict};
use std::time::{Duration, Instant};

struct Shrinker {
    class: String,
    until: Instant,
    partner: Option<String>,
    tmp: String,
    tried: u64,
    best: (Case, Verdict),
}
fn list(c: &Case) -> &Vec<u32> {
    match &c.choices {
        Choices::List(l) => l,
        Choices::Seed(_) => unreachable!(),
    }
}
impl Shrinker {
    fn fails(&mut self, c: &Case) -> Option<Verdict> {
        self.tried += 1;
        let v = execute(c, false, 3);
        if let Some(p) = &self.partner {
            // two builds have to come to the same
            let mine = outcome(&v);
            let keep: Vec<u32> = shm().choices().to_vec();
            let dummy = Verdict { class: "variants".into(), detail: String::new(), flags: [false; 3] };
            write_case(&self.tmp, c, &dummy, "");
            let o = std::process::Command::new(p).arg("outcome").arg(&self.tmp).output().ok()?;
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let (theirs, how) = text.trim().split_once(' ')?;
            let theirs: u64 = theirs.parse().ok()?;
            let s = shm();
            s.n_choices = keep.len();
            s.choices[..keep.len()].copy_from_slice(&keep);
            if mine == theirs {
                return None;
            }
            let here = v.map_or("fine".to_string(), |v| format!("{}: {}", v.class, v.detail));
            return Some(Verdict { class: "variants".into(), detail: format!("two builds of the library differ: here outcome {:016x} ({}), there {:016x} ({})", mine, here, theirs, how), flags: [false; 3] });
        }
        let v = v?;
        (v.class == self.class && props::concerns(&c.prop, &v.class, v.flags)).then_some(v)
    }
    /// Adopts the candidate if it fails in the same way and is not larger.
    fn attempt(&mut self, c: Case) -> bool {
        if Instant::now() >= self.until {
            return false;
        }
        let Some(v) = self.fails(&c) else { return false };
        let used = shm().choices().to_vec();
        let mut c = c;
        let weight = |l: &[u32]| (l.len(), l.iter().map(|x| *x as u64).sum::<u64>());
        if used.len() <= list(&c).len() {
            c.choices = Choices::List(used);
        }
        if weight(list(&c)) > weight(list(&self.best.0)) {
            return false;
        }
        self.best = (c, v);
        true
    }
    fn with(&self, l: Vec<u32>) -> Case {
        Case { choices: Choices::List(l), ..self.best.0.clone() }
    }
    fn cut(&mut self) -> bool {
        let mut any = false;
        let mut size = list(&self.best.0).len() / 2;
        while size > 0 {
            let mut at = 0;
            while at < list(&self.best.0).len() {
                if Instant::now() >= self.until {
                    return any;
                }
                let mut l = list(&self.best.0).clone();
                let end = (at + size).min(l.len());
                l.drain(at..end);
                if self.attempt(self.with(l)) {
                    any = true;
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
        any
    }
    fn clear(&mut self) -> bool {
        let mut any = false;
        let mut size = list(&self.best.0).len();
        while size > 0 {
            let mut at = 0;
            while at < list(&self.best.0).len() {
                if Instant::now() >= self.until {
                    return any;
                }
                let mut l = list(&self.best.0).clone();
                let end = (at + size).min(l.len());
                if l[at..end].iter().any(|x| *x != 0) {
                    l[at..end].fill(0);
                    any |= self.attempt(self.with(l));
                }
                at += size;
            }
            size /= 2;
        }
        any
    }
    fn lower(&mut self) -> bool {
        let mut any = false;
        let mut at = 0;
        while at < list(&self.best.0).len() {
            for how in 0..3 {
                if Instant::now() >= self.until {
                    return any;
                }
                let l = list(&self.best.0);
                let Some(x) = l.get(at).copied() else { return any };
                let y = match how {
                    0 => 1,
                    1 => x / 2,
                    _ => x.saturating_sub(1),
                };
                if y >= x {
                    continue;
                }
                let mut l = l.clone();
                l[at] = y;
                any |= self.attempt(self.with(l));
            }
            at += 1;
        }
        any
    }
    fn schedule(&mut self) {
        let c = self.best.0.clone();
        let Some(_) = self.fails(&c) else { return };
        let full: Vec<(u32, u32)> = shm().switches().to_vec();
        for candidate in [Vec::new(), full] {
            let c = Case { schedule: Schedule::List(candidate), ..self.best.0.clone() };
            if let Some(v) = self.fails(&c) {
                self.best = (c, v);
                break;
            }
        }
        let Schedule::List(_) = &self.best.0.schedule else { return };
        let mut size = usize::MAX;
        loop {
            let Schedule::List(l) = &self.best.0.schedule else { return };
            let l = l.clone();
            size = size.min(l.len());
            if size == 0 {
                return;
            }
            let mut at = 0;
            let mut l = l;
            while at < l.len() {
                if Instant::now() >= self.until {
                    return;
                }
                let mut k = l.clone();
                let end = (at + size).min(k.len());
                k.drain(at..end);
                let c = Case { schedule: Schedule::List(k.clone()), ..self.best.0.clone() };
                if let Some(v) = self.fails(&c) {
                    self.best = (c, v);
                    l = k;
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
    }
}

pub fn main(from: &str, to: &str, seconds: u64, partner: Option<String>) {
    let (c, class) = read_case(from);
    let mut s = Shrinker {
        class,
        until: Instant::now() + Duration::from_secs(seconds),
        partner,
        tmp: format!("{}.tmp", to),
        tried: 0,
        best: (c.clone(), Verdict { class: String::new(), detail: String::new(), flags: [false; 3] }),
    };
    let Some(v) = s.fails(&c) else {
        println!("not reproduced");
        std::process::exit(4);
    };
    let used = shm().choices().to_vec();
    let before = (used.len(), shm().n_switches);
    s.best = (Case { choices: Choices::List(used), ..c }, v);
    let total = s.until;
    // first the plan under the same schedule seed, then the schedule itself, then both once more
    s.until = Instant::now() + Duration::from_secs(seconds) * 7 / 10;
    while s.cut() | s.clear() | s.lower() {
        if Instant::now() >= s.until {
            break;
        }
    }
    s.until = Instant::now() + (total.saturating_duration_since(Instant::now())) * 2 / 3;
    s.schedule();
    s.until = total;
    while s.cut() | s.clear() {
        if Instant::now() >= s.until {
            break;
        }
    }
    let (c, v) = s.best.clone();
    // the file has to reproduce it
    s.until = Instant::now() + Duration::from_secs(5);
    if s.fails(&c).is_none() {
        println!("minimised run is not reproducible");
        std::process::exit(4);
    }
    write_case(to, &c, &v, "");
    let switches = match &c.schedule {
        Schedule::List(l) => l.len(),
        Schedule::Seed(_) => shm().n_switches,
    };
    let _ = std::fs::remove_file(&s.tmp);
    println!("choices {} -> {}, switches {} -> {}, {} attempts", before.0, list(&c).len(), before.1, switches, s.tried);
}
