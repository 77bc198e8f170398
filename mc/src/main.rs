mod alloc;
mod bases;
mod bind;
mod cases;
mod cli;
mod engine;
mod known;
mod menu;
mod model;
mod prims;
mod refdec;
mod refval;
mod slots;
mod sp_ctx;
mod sp_dec;
mod sp_five;
mod sp_more;
mod sp_val;
mod sp_wide;
mod spaces;
mod trees;
mod elems;

use cases::Kind;
use slots::Slots;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Longest a single case may take before it counts as a hang (looked at again on its own first).
const CASE_SECS: u64 = 30;
const CASE_SECS_ALONE: u64 = 60;
const RUN_SECS: u64 = 850;
const RUN_SECS_THOROUGH: u64 = 3000;
const RSS_LIMIT_KB: u64 = 26 << 20;

fn root() -> String { std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => supervise(arg(2), arg(3)),
        "run" => run(arg(2), arg(3)),
        "case" => case(arg(2)),
        "replay" => replay(arg(2)),
        "dump" => dump(arg(2), arg(3)),
        _ => { eprintln!("usage: mc check <property> <quick|thorough> | replay <file>"); 2 }
    };
    std::process::exit(code);
}

// ---------------------------------------------------------------------------------------------
// artefacts

fn hexify(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 { return None }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).ok()).collect()
}
fn one_line(s: &str) -> String { s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect() }

fn write_replay(prop: &str, k: Kind, payload: &[u8], what: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.replay", dir, prop, engine::hash(k as u64, payload));
    let text = format!("property={}\nkind={}\nwhat={}\npayload={}\n", prop, cases::kind_name(k), one_line(what), hexify(payload));
    if let Err(e) = std::fs::write(&path, text) { eprintln!("cannot write {}: {}", path, e) }
    path
}

fn report(prop: &str, k: Kind, payload: &[u8], what: &str) {
    let path = write_replay(prop, k, payload, what);
    println!("VIOLATION property={} replay={}", prop, path);
    println!("  {}: {}", cases::describe(k, payload), one_line(what).chars().take(300).collect::<String>());
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}

struct Evidence { states: u64, transitions: u64, traces: u64, samples: Vec<String>, spaces: Vec<String>, outcomes: Vec<(String, u64)>, exhaustive: bool, violations: usize, note: String }
fn write_evidence(prop: &str, tier: &str, e: &Evidence, wall: f64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let arr = |v: &[String]| format!("[{}]", v.join(",\n   "));
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"outcomes\": {{{}}},\n  \"exhaustive\": {},\n  \"rule\": \"states: distinct inputs (by content, per space) whose expected behaviour the reference model computed; transitions: edges of the choice trees walked; traces: inputs run on the implementation and compared with the model\",\n  \"spaces\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"wall_s\": {:.2}{}\n}}\n",
        json(prop), json(tier), seed, e.states, e.transitions, e.traces, e.outcomes.len(),
        e.outcomes.iter().map(|(l, n)| format!("{}: {}", json(l), n)).collect::<Vec<_>>().join(", "),
        e.exhaustive, arr(&e.spaces), arr(&e.samples.iter().map(|s| json(s)).collect::<Vec<_>>()),
        arr(&spaces::assumptions(prop).iter().map(|s| json(s)).collect::<Vec<_>>()), e.violations, wall,
        if e.note.is_empty() { String::new() } else { format!(",\n \"note\": {}", json(&e.note)) },
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(format!("{}/{}.json", dir, prop), text) { eprintln!("cannot write evidence: {}", x); std::process::exit(2) }
}

// ---------------------------------------------------------------------------------------------
// the exploring process

fn run(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let slots = match std::env::var("MC_SLOT_FD").ok().and_then(|s| s.parse().ok()) { Some(fd) => { slots::die_with_parent(); Slots::map(fd) } None => Slots::create() };
    // every space is built before the clock of any case starts
    let sp = spaces::spaces(prop, tier != "thorough");
    if sp.is_empty() { eprintln!("no spaces for {}", prop); return 2 }
    let known = known::load(prop);
    let r = engine::explore(&sp, &slots, &known);
    cli::cleanup();
    for k in &r.known { println!("KNOWN-FINDING: property={} {}", prop, k) }
    let mut e = Evidence { states: 0, transitions: 0, traces: 0, samples: vec![], spaces: vec![], outcomes: vec![], exhaustive: r.violations.is_empty(), violations: r.violations.len(), note: String::new() };
    let mut outcomes = std::collections::BTreeMap::new();
    for (n, about, s) in &r.spaces {
        e.states += s.distinct;
        e.transitions += s.transitions;
        e.traces += s.traces;
        for (l, c) in &s.labels { *outcomes.entry(l.to_string()).or_insert(0) += c }
        e.spaces.push(format!("{{\"name\": {}, \"about\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"distinct_outcomes\": {}}}", json(n), json(about), s.distinct, s.transitions, s.traces, s.labels.len()));
    }
    e.outcomes = outcomes.into_iter().collect();
    let step = (r.samples.len() / 12).max(1);
    e.samples = r.samples.iter().step_by(step).take(12).map(|s| format!("{} -> {}: {}", s.space, s.label, s.text)).collect();
    for v in &r.violations { e.samples.push(format!("{} -> VIOLATION: {}", v.space, cases::describe(v.kind, &v.payload))) }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(prop, tier, &e, wall);
    println!("{} {}: {} states, {} transitions, {} traces on the implementation, {} distinct outcomes, {} spaces, {:.1} s", prop, tier, e.states, e.transitions, e.traces, e.outcomes.len(), e.spaces.len(), wall);
    for v in &r.violations { report(prop, v.kind, &v.payload, &v.what) }
    if r.violations.is_empty() { 0 } else { 1 }
}

/// Runs one case read from standard input; 0 = as expected, 1 = mismatch.
fn case(kind: &str) -> i32 {
    let mut p = vec![];
    std::io::stdin().read_to_end(&mut p).expect("HARNESS: stdin");
    let k = cases::kind_of(kind).expect("HARNESS: kind");
    engine::install_panic_hook();
    // same stack as a worker of the exploration
    let r = std::thread::Builder::new().stack_size(engine::STACK).spawn(move || engine::guarded(k, &p)).unwrap().join();
    cli::cleanup();
    match r { Ok(Ok(l)) => { println!("{}", l); 0 } Ok(Err(e)) => { println!("{}", one_line(&e)); 1 } Err(_) => 1 }
}

enum Alone { Fine, Bad(String), Error }
/// Runs one case in a process of its own.
fn alone(k: Kind, payload: &[u8], secs: u64) -> Alone {
    let me = std::env::current_exe().expect("exe");
    let mut ch = match Command::new(me).args(["case", cases::kind_name(k)]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => return Alone::Error };
    let mut si = ch.stdin.take().unwrap();
    let data = payload.to_vec();
    let w = std::thread::spawn(move || { let _ = si.write_all(&data); });
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut s = vec![]; let _ = so.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let t = Instant::now();
    let st = loop {
        match ch.try_wait() { Ok(Some(s)) => break Some(s), Ok(None) => {} Err(_) => return Alone::Error }
        if t.elapsed().as_secs() >= secs { let _ = ch.kill(); let _ = ch.wait(); break None }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = w.join();
    let out = rd.join().unwrap_or_default();
    match st {
        None => Alone::Bad(format!("no result within {} s", secs)),
        Some(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Alone::Fine,
            (Some(1), _) => Alone::Bad(out.trim().to_string()),
            (None, Some(sig)) => Alone::Bad(format!("process ended by signal {} (crash, stack overflow, or memory request beyond 1 GiB)", sig)),
            _ => Alone::Error,
        },
    }
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else { eprintln!("cannot read {}", path); return 2 };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (prop, kind, payload) = (get("property="), get("kind="), get("payload="));
    let (Some(k), Some(p)) = (cases::kind_of(&kind), unhex(&payload)) else { eprintln!("bad replay file"); return 2 };
    println!("{}", cases::describe(k, &p));
    match alone(k, &p, CASE_SECS_ALONE) {
        Alone::Fine => { println!("as expected"); 0 }
        Alone::Bad(w) => { println!("VIOLATION property={} replay={}\n  {}", prop, path, w); 1 }
        Alone::Error => 2,
    }
}

/// Writes the payloads of a property's spaces for use outside (development).
fn dump(prop: &str, tier: &str) -> i32 {
    engine::DUMP.store(true, std::sync::atomic::Ordering::Relaxed);
    let slots = Slots::create();
    engine::explore(&spaces::spaces(prop, tier != "thorough"), &slots, &[]);
    0
}

// ---------------------------------------------------------------------------------------------
// the supervising process

fn rss_kb(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/status", pid)).ok().and_then(|s| s.lines().find(|l| l.starts_with("VmRSS:")).and_then(|l| l.split_whitespace().nth(1).and_then(|x| x.parse().ok()))).unwrap_or(0)
}

fn supervise(prop: &str, tier: &str) -> i32 {
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let start = Instant::now();
    let slots = Slots::create();
    let me = std::env::current_exe().expect("exe");
    let mut ch = match Command::new(&me).args(["run", prop, tier]).env("MC_SLOT_FD", slots.fd.to_string()).spawn() { Ok(c) => c, Err(e) => { eprintln!("cannot start: {}", e); return 2 } };
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); engine::THREADS];
    let mut hung: Option<usize> = None;
    let limit = if tier == "thorough" { RUN_SECS_THOROUGH } else { RUN_SECS };
    let status = loop {
        match ch.try_wait() { Ok(Some(s)) => break s, Ok(None) => {} Err(e) => { eprintln!("wait: {}", e); return 2 } }
        std::thread::sleep(Duration::from_millis(50));
        for i in 0..engine::THREADS {
            let (seq, active) = slots.peek(i);
            if seq != last[i].0 || !active { last[i] = (seq, Instant::now()) }
            else if last[i].1.elapsed().as_secs() >= CASE_SECS { hung = Some(i) }
        }
        let over = start.elapsed().as_secs() > limit;
        let fat = rss_kb(ch.id()) > RSS_LIMIT_KB;
        if hung.is_some() || over || fat {
            let _ = ch.kill();
            let s = ch.wait();
            if hung.is_none() { eprintln!("{}: stopped: {}", prop, if over { "time limit" } else { "memory limit" }); return 2 }
            break s.expect("wait");
        }
    };
    if hung.is_none() { if let Some(c) = status.code() { return c } }
    // the process died or got stuck: find the input responsible
    let traces: u64 = (0..engine::THREADS).map(|i| slots.peek(i).0).sum();
    let order: Vec<usize> = hung.into_iter().chain((0..engine::THREADS).filter(|i| Some(*i) != hung)).collect();
    for i in order {
        let Some((k, p)) = slots.case(i) else { continue };
        let k = cases::kind_nr(k);
        if let Alone::Bad(what) = alone(k, &p, CASE_SECS_ALONE) {
            let e = Evidence { states: traces, transitions: traces, traces, samples: vec![format!("VIOLATION: {}", cases::describe(k, &p))], spaces: vec![], outcomes: vec![], exhaustive: false, violations: 1, note: "the exploring process ended early; counts are the cases it had begun".into() };
            write_evidence(prop, tier, &e, start.elapsed().as_secs_f64());
            report(prop, k, &p, &what);
            return 1;
        }
    }
    eprintln!("{}: exploration ended with {:?} and no single input reproduces it", prop, status);
    2
}
