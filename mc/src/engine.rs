//! Stateless exhaustive exploration. A space is a closure that draws choices from a `Ch`; the engine
//! runs it once per path of its choice tree, in depth-first order, over all worker threads.

use crate::alloc;
use crate::cases::{self, Kind};
use crate::slots::Slots;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const THREADS: usize = 8;
pub const STACK: usize = 512 << 20;
/// Bytes one case may allocate before its allocations fail.
const CASE_MEM: i64 = 1 << 30;
const MAX_VIOLATIONS: usize = 8;

/// Returned when the current path belongs to another worker or the exploration has stopped.
pub struct Skip;
pub type X<T> = Result<T, Skip>;

pub type SpaceFn = Box<dyn Fn(&mut Ch) -> X<()> + Sync + Send>;

pub struct Space {
    pub name: &'static str,
    pub about: String,
    /// number of leading choices that are distributed over the workers
    pub split: usize,
    /// paths lead to pairwise different cases, so distinct states need no hash set
    pub injective: bool,
    /// cases run one at a time anyway, so a single worker walks the space
    pub serial: bool,
    pub f: SpaceFn,
}

pub fn space(name: &'static str, about: impl Into<String>, split: usize, f: impl Fn(&mut Ch) -> X<()> + Sync + Send + 'static) -> Space {
    Space { name, about: about.into(), split, injective: false, serial: false, f: Box::new(f) }
}
impl Space {
    pub fn injective(mut self) -> Space { self.injective = true; self }
    pub fn serial(mut self) -> Space { self.serial = true; self }
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
type Set = HashSet<u64, BuildHasherDefault<IdHash>>;

pub fn hash(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0x9E37_79B9_7F4A_7C15 ^ (b.len() as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        h ^= h >> 32;
    }
    let mut last = [0u8; 8];
    last[..it.remainder().len()].copy_from_slice(it.remainder());
    h = (h ^ u64::from_le_bytes(last)).wrapping_mul(0xC4CE_B9FE_1A85_EC53);
    h ^= h >> 29;
    h = h.wrapping_mul(0x9FB2_1C65_1E98_DF25);
    h ^ (h >> 32)
}

pub struct Violation { pub space: &'static str, pub kind: Kind, pub payload: Vec<u8>, pub what: String }

pub struct Shared {
    pub stop: AtomicBool,
    sets: Vec<Mutex<Set>>,
    known: Vec<(Kind, Vec<u8>, String)>,
    known_hit: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
}

#[derive(Default, Clone)]
pub struct SpaceStats { pub transitions: u64, pub traces: u64, pub distinct: u64, pub labels: BTreeMap<&'static str, u64> }

pub struct Sample { pub space: &'static str, pub label: &'static str, pub text: String }

struct Worker<'a> {
    shared: &'a Shared,
    slots: &'a Slots,
    id: usize,
    stats: SpaceStats,
    labels: HashMap<*const u8, (&'static str, u64)>,
    samples: Vec<Sample>,
}

pub struct Ch<'a, 'b> {
    path: Vec<(u32, u32)>,
    pos: usize,
    split: usize,
    owned: Option<usize>,
    prefix_count: usize,
    ticket: usize,
    tickets: &'a AtomicUsize,
    space: &'a Space,
    seed: u64,
    w: &'a mut Worker<'b>,
}

impl<'a, 'b> Ch<'a, 'b> {
    /// Draws one of `n` alternatives; every alternative is explored.
    pub fn pick(&mut self, n: usize) -> X<usize> {
        if n == 0 { return Err(Skip) }
        if n == 1 { return Ok(0) }
        if self.pos == self.path.len() {
            self.path.push((0, n as u32));
            if self.owned.is_some() { self.w.stats.transitions += 1 }
        }
        let (c, m) = self.path[self.pos];
        assert_eq!(m as usize, n, "space {} is not deterministic", self.space.name);
        self.pos += 1;
        if self.pos >= self.split { self.decide()? }
        Ok(c as usize)
    }
    pub fn of<'m, Y>(&mut self, menu: &'m [Y]) -> X<&'m Y> { let i = self.pick(menu.len())?; Ok(&menu[i]) }
    pub fn flag(&mut self) -> X<bool> { Ok(self.pick(2)? == 1) }
    /// Draws a number in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> X<usize> { Ok(lo + self.pick(hi + 1 - lo)?) }

    /// Settles whether the current prefix is this worker's.
    fn decide(&mut self) -> X<()> {
        if self.owned.is_some() { return Ok(()) }
        self.owned = Some(self.pos);
        let mine = self.prefix_count == self.ticket;
        self.prefix_count += 1;
        if mine { self.w.stats.transitions += 1; self.ticket = self.tickets.fetch_add(1, Relaxed); Ok(()) } else { Err(Skip) }
    }

    /// Runs one case on the implementation.
    pub fn run(&mut self, kind: Kind, payload: &[u8]) -> X<()> {
        self.decide()?;
        let w = &mut *self.w;
        if w.shared.stop.load(Relaxed) { return Err(Skip) }
        if self.space.injective { w.stats.distinct += 1 } else {
            let h = hash(self.seed ^ (kind as u64) << 32, payload);
            if w.shared.sets[(h >> 24) as usize & 255].lock().unwrap().insert(h) { w.stats.distinct += 1 }
        }
        if DUMP.load(Relaxed) { println!("{} {} {}", cases::kind_name(kind), cases::expected(kind, payload), cases::hex(payload, usize::MAX)); return Ok(()) }
        w.slots.begin(w.id, kind as u32, payload);
        let r = guarded(kind, payload);
        w.slots.end(w.id);
        w.stats.traces += 1;
        match r {
            Ok(label) => {
                let e = w.labels.entry(label.as_ptr()).or_insert((label, 0));
                e.1 += 1;
                if e.1 <= 2 && w.id == 0 || e.1 == 1 {
                    w.samples.push(Sample { space: self.space.name, label, text: cases::describe(kind, payload) })
                }
            }
            Err(what) => {
                if let Some((_, _, text)) = w.shared.known.iter().find(|(k, p, _)| *k == kind && p == payload) {
                    w.shared.known_hit.lock().unwrap().push(text.clone());
                    *w.stats.labels.entry("known-finding").or_insert(0) += 1;
                    return Ok(());
                }
                let mut v = w.shared.violations.lock().unwrap();
                if v.iter().any(|x| x.kind == kind && x.payload == payload) { return Ok(()) }
                v.push(Violation { space: self.space.name, kind, payload: payload.to_vec(), what });
                if v.len() >= MAX_VIOLATIONS { w.shared.stop.store(true, Relaxed) }
            }
        }
        Ok(())
    }
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", m, l);
        if std::env::var_os("MC_DEBUG").is_some() { eprintln!("panic: {}", text) }
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs a case with panics turned into mismatches and a ceiling on its memory.
pub fn guarded(kind: Kind, payload: &[u8]) -> Result<&'static str, String> {
    alloc::set_ceiling(CASE_MEM);
    let r = std::panic::catch_unwind(|| cases::run(kind, payload));
    alloc::clear_ceiling();
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = PANIC.with(|p| p.borrow().clone());
            if p.contains("HARNESS:") { eprintln!("harness failure: {}", p); std::process::exit(2) }
            Err(format!("panic: {}", p))
        }
    }
}

/// Print the cases instead of running them.
pub static DUMP: AtomicBool = AtomicBool::new(false);

pub struct Report {
    pub known: Vec<String>,
    pub spaces: Vec<(&'static str, String, SpaceStats)>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
}

pub fn explore(spaces: &[Space], slots: &Slots, known: &[crate::known::Known]) -> Report {
    install_panic_hook();
    let known = known.iter().filter_map(|k| Some((cases::kind_of(&k.kind)?, (0..k.payload.len() / 2).map(|i| u8::from_str_radix(&k.payload[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()?, k.what.clone()))).collect();
    let shared = Shared { stop: AtomicBool::new(false), sets: (0..256).map(|_| Mutex::new(Set::default())).collect(), violations: Mutex::new(vec![]), known, known_hit: Mutex::new(vec![]) };
    let mut out = vec![];
    let mut samples: Vec<Sample> = vec![];
    let verbose = std::env::var_os("MC_VERBOSE").is_some();
    for (k, sp) in spaces.iter().enumerate() {
        let start = std::time::Instant::now();
        let tickets = AtomicUsize::new(0);
        let total = AtomicU64::new(0);
        let results: Vec<(SpaceStats, Vec<Sample>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..if sp.serial { 1 } else { THREADS }).map(|id| {
                let (shared, tickets, total) = (&shared, &tickets, &total);
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                    let mut w = Worker { shared, slots, id, stats: SpaceStats::default(), labels: HashMap::new(), samples: vec![] };
                    walk(sp, k as u64, tickets, &mut w);
                    for (l, n) in w.labels.values() { *w.stats.labels.entry(l).or_insert(0) += n }
                    total.fetch_add(w.stats.traces, Relaxed);
                    (w.stats, w.samples)
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => { eprintln!("harness failure: worker panicked in space {}: {}", sp.name, "see MC_DEBUG=1"); std::process::exit(2) }
            }).collect()
        });
        let mut st = SpaceStats::default();
        for (s, sm) in results {
            st.transitions += s.transitions; st.traces += s.traces; st.distinct += s.distinct;
            for (l, n) in s.labels { *st.labels.entry(l).or_insert(0) += n }
            for x in sm { if samples.iter().filter(|y| y.space == x.space && y.label == x.label).count() < 2 { samples.push(x) } }
        }
        // distinct inputs are counted per space
        for s in &shared.sets { s.lock().unwrap().clear() }
        if verbose { eprintln!("{:<18} {:>12} traces {:>12} distinct {:>12} transitions {:>7.2}s  {:?}", sp.name, st.traces, st.distinct, st.transitions, start.elapsed().as_secs_f64(), st.labels) }
        out.push((sp.name, sp.about.clone(), st));
        if shared.stop.load(Relaxed) { break }
        if !shared.violations.lock().unwrap().is_empty() { break }
    }
    let violations = shared.violations.into_inner().unwrap();
    let mut known = shared.known_hit.into_inner().unwrap();
    known.sort();
    known.dedup();
    Report { known, spaces: out, violations, samples }
}

fn walk(sp: &Space, seed: u64, tickets: &AtomicUsize, w: &mut Worker) {
    let ticket = tickets.fetch_add(1, Relaxed);
    let mut ch = Ch { path: vec![], pos: 0, split: sp.split.max(1), owned: None, prefix_count: 0, ticket, tickets, space: sp, seed, w };
    loop {
        ch.pos = 0;
        let r = (sp.f)(&mut ch);
        if ch.w.shared.stop.load(Relaxed) { return }
        match r {
            Ok(()) => {}
            Err(Skip) => { ch.path.truncate(ch.pos) }
        }
        // advance to the next path
        loop {
            match ch.path.last_mut() {
                None => return,
                Some((c, n)) if *c + 1 < *n => { *c += 1; break }
                Some(_) => { ch.path.pop(); }
            }
        }
        let keep = ch.path.len();
        if let Some(o) = ch.owned {
            if keep <= o { ch.owned = None } else { ch.w.stats.transitions += 1 }
        }
    }
}
