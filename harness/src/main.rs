//! Runs the crate on generated inputs next to the oracle.
mod fonts;
mod items;
mod rng;
mod spec;
mod tape;
mod val;

use opentype::tape::Read as _;
use rng::Rng;
use serde_json::{json, Value as J};
use spec::{Made, Oracle, Spec, Stop};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
pub use tape::Tape;

pub type Out = std::result::Result<String, std::io::Error>;
pub struct Reader { pub name: &'static str, pub owner: &'static str, pub position: bool, pub framed: bool, pub read: fn(&mut Tape, &[i128]) -> Out }
pub struct FlagWord { pub name: &'static str, pub invalid: u16, pub bits: &'static [(&'static str, u16, fn(u16) -> bool)], pub is_invalid: fn(u16) -> bool, pub back: fn(u16) -> u16 }
pub struct Entry<T> { pub value: T, pub tag: [u8; 4], pub name: &'static str, pub codes: &'static [&'static str] }
pub mod gen { use super::*; include!(env!("HARNESS_GEN")); }

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Ok(String, u64), Err(String), Panic(String) }
impl Outcome {
    pub fn show(&self) -> String { match self { Outcome::Ok(s, _) => format!("value {}", s.chars().take(1500).collect::<String>()), Outcome::Err(e) => format!("error: {e}"), Outcome::Panic(p) => format!("PANIC: {p}") } }
}

thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn run(r: &Reader, t: &mut Tape, params: &[i128]) -> Outcome {
    let mut p = params.to_vec();
    if r.position { p[0] += t.base as i128; }
    match guard(|| (r.read)(t, &p)) {
        Err(p) => Outcome::Panic(p),
        Ok(Ok(s)) => Outcome::Ok(s, t.pos),
        Ok(Err(e)) => Outcome::Err(e.to_string()),
    }
}

pub struct Opts { pub seed: u64, pub ms: u64, pub names: Vec<String>, pub aspect: String, pub literals: Vec<u64>, pub fixtures: String, pub args: HashMap<String, String> }

#[derive(Default)]
pub struct Report { pub evaluations: u64, pub distinct: HashSet<u64>, pub accepted: u64, pub rejected: u64, pub skipped: u64, pub samples: Vec<String>, pub failure: Option<J>, pub visited: HashMap<String, u64>, pub exhaustive: bool, pub notes: Vec<String> }
impl Report {
    pub fn seen(&mut self, h: impl Hash) -> bool {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.distinct.insert(s.finish())
    }
    pub fn json(&self) -> J {
        json!({"evaluations": self.evaluations, "distinct": self.distinct.len(), "accepted": self.accepted, "rejected": self.rejected,
               "skipped": self.skipped, "samples": self.samples, "failure": self.failure, "visited": self.visited, "exhaustive": self.exhaustive, "notes": self.notes})
    }
}

pub fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{b:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// What is wrong with the crate on a case, if anything.
pub struct Wrong { pub what: String, pub expected: String, pub got: String, pub extra: J }
fn wrong(what: &str, expected: String, got: String, extra: J) -> Option<Wrong> { Some(Wrong { what: what.into(), expected, got, extra }) }

const BASES: [u64; 5] = [1, 77, 0xFFFF_FFF0, 0x1_0000_0005, 0x1234_5678_9ABC];

/// What the threads are at, and since when: nothing may take forever.
type Current = std::sync::Mutex<Option<(Instant, &'static str, Vec<u8>, i64, Vec<i128>)>>;
static CURRENT: [Current; 8] = [const { std::sync::Mutex::new(None) }; 8];
fn watch(aspect: String) {
    // Failing everywhere is many runs.
    let patience = Duration::from_secs(if aspect == "fault" { 120 } else { 40 });
    loop {
        std::thread::sleep(Duration::from_secs(1));
        for c in &CURRENT {
            let c = c.lock().unwrap();
            let Some((t, name, data, start, params)) = &*c else { continue };
            if t.elapsed() < patience { continue; }
            let mut rep = Report::default();
            rep.failure = Some(json!({"mode": "read", "aspect": aspect, "type": name, "data": hex(data), "start": start, "params": params.iter().map(|p| p.to_string()).collect::<Vec<_>>(),
                "what": "reading does not come to an end", "expected": "a value or an error", "got": format!("nothing within {} seconds", patience.as_secs()), "extra": {}}));
            println!("{}", rep.json());
            std::process::exit(0);
        }
    }
}
fn busy(th: u64, r: &Reader, m: &Made) { *CURRENT[th as usize % 8].lock().unwrap() = Some((Instant::now(), r.name, m.data.clone(), m.start, m.params.clone())); }
fn idle(th: u64) { *CURRENT[th as usize % 8].lock().unwrap() = None; }

/// Judges one case.  None: nothing wrong; the counters of the report are updated.
pub fn judge(spec: &Spec, r: &Reader, m: &Made, aspect: &str, rep: &mut Report, rng: &mut Rng, budget: i64, fail_at: Option<(u64, u64, u64)>) -> Option<Wrong> {
    let mut o = Oracle::new(spec, &m.data);
    o.budget = budget;
    let expected = o.decode(r.name, m.start, &m.params);
    if expected == Err(Stop::Budget) { rep.skipped += 1; return None; }
    for (k, n) in std::mem::take(&mut o.visited) { *rep.visited.entry(k).or_default() += n; }
    match &expected { Ok(_) => rep.accepted += 1, _ => rep.rejected += 1 }
    rep.evaluations += 1;
    let plain = run(r, &mut Tape::new(&m.data, 0, m.start as u64), &m.params);
    if let (Outcome::Panic(p), true) = (&plain, aspect != "fault" && aspect != "shift") {
        return wrong("a panic", match &expected { Ok((v, _)) => v.show(), Err(_) => "an error".into() }, format!("PANIC: {p}"), json!({}));
    }
    match aspect {
        "decode" => compare(r, &expected, &plain),
        "panic" => {
            // Also on huge tapes.
            let b = *rng.pick(&BASES);
            let x = run(r, &mut Tape::new(&m.data, b, m.start as u64), &m.params);
            if let Outcome::Panic(p) = &x { return wrong("a panic", "a value or an error".into(), format!("PANIC: {p}"), json!({"base": b})); }
            None
        }
        "fault" => {
            // Splitting reads must not matter.
            for (chunk, interrupt) in [(1, false), (3, false), (0, true), (2, true)] {
                let mut t = Tape::new(&m.data, 0, m.start as u64);
                t.chunk = chunk;
                t.interrupt = interrupt;
                let x = run(r, &mut t, &m.params);
                if x != plain && !matches!((&x, &plain), (Outcome::Err(_), Outcome::Err(_))) {
                    return wrong("short reads change the result", plain.show(), x.show(), json!({"chunk": chunk, "interrupt": interrupt}));
                }
            }
            // A read may also fail half way.
            let chunk = match fail_at { Some(f) => f.2, None if rng.chance(0.3) => 1 + rng.below(3), None => 0 };
            let tape = || { let mut t = Tape::new(&m.data, 0, m.start as u64); t.chunk = chunk as usize; t };
            let mut t = tape();
            run(r, &mut t, &m.params);
            let n = t.ops;
            let kinds = tape::KINDS;
            let step = if n > 400 { n / 200 } else { 1 };
            let first = if step > 1 { rng.below(step) } else { 0 };
            let mut at = first;
            while at < n {
                let k = match fail_at { Some(f) => f.1, None => rng.below(kinds.len() as u64) };
                let a = match fail_at { Some(f) => f.0, None => at };
                let mut t = tape();
                t.fail = Some(a);
                t.kind = kinds[k as usize];
                let x = run(r, &mut t, &m.params);
                rep.evaluations += 1;
                if t.failed && !matches!(x, Outcome::Err(_)) {
                    return wrong("a failure of the reader does not surface", "an error".into(), x.show(), json!({"fail_at": a, "kind": k, "chunk": chunk}));
                }
                at += step;
                if fail_at.is_some() { break; }
            }
            None
        }
        "shift" => {
            for _ in 0..2 {
                let b = *rng.pick(&BASES);
                let x = run(r, &mut Tape::new(&m.data, b, m.start as u64), &m.params);
                let same = match (&plain, &x) {
                    (Outcome::Ok(a, p), Outcome::Ok(c, q)) => a == c && (!r.framed || p + b == *q),
                    (Outcome::Err(_), Outcome::Err(_)) | (Outcome::Panic(_), Outcome::Panic(_)) => true,
                    _ => false,
                };
                if !same { return wrong("the place on the tape matters", plain.show(), x.show(), json!({"base": b})); }
            }
            // What lies before does not matter, unless it is asked for by a parameter.
            if m.start > 0 && (!r.position || m.params[0] >= m.start as i128) {
                let mut d = m.data.clone();
                let n = d.len().min(m.start as usize);
                for x in &mut d[..n] { *x = rng.byte(); }
                let x = run(r, &mut Tape::new(&d, 0, m.start as u64), &m.params);
                if x != plain && !matches!((&x, &plain), (Outcome::Err(_), Outcome::Err(_))) {
                    return wrong("what lies before matters", plain.show(), x.show(), json!({"before": hex(&d[..n])}));
                }
            }
            // Offsets are relative to what the format prescribes.
            let w = compare(r, &expected, &plain);
            if let (Some(w), Ok((_, end))) = (&w, &expected) {
                // The first jump goes where nothing is according to the format.
                let mut t = Tape::new(&m.data, 0, m.start as u64);
                t.trace = Some(Default::default());
                run(r, &mut t, &m.params);
                let trace = t.trace.unwrap();
                if let Some(at) = trace.jumps.first().map(|x| *x as i64) {
                    if at != *end && !o.starts.contains(&at) { return wrong("an offset is relative to something else", w.expected.clone(), format!("{}, jumping to {at}", w.got), json!({"jump": at})); }
                }
            }
            match w { Some(w) if m.start > 0 || r.position => {
                // Only if it is right at the very beginning of a tape, which is when it is about the place.
                let d = m.data[m.data.len().min(m.start as usize)..].to_vec();
                let ps: Vec<i128> = m.params.iter().enumerate().map(|(i, p)| if i == 0 && r.position { p - m.start as i128 } else { *p }).collect();
                if r.position && ps[0] < 0 { return None; }
                let at0 = run(r, &mut Tape::new(&d, 0, 0), &ps);
                let mut o = Oracle::new(spec, &d);
                let e0 = o.decode(r.name, 0, &ps);
                if e0 == Err(Stop::Budget) || compare(r, &e0, &at0).is_some() { return None; }
                Some(w)
            } _ => None }
        }
        _ => unreachable!(),
    }
}

pub fn compare(r: &Reader, expected: &Result<(val::Val, i64), Stop>, got: &Outcome) -> Option<Wrong> {
    match (expected, got) {
        (Err(_), Outcome::Err(_)) => None,
        (Ok((v, e)), Outcome::Ok(s, pos)) => {
            match val::parse(s) {
                None => None,       // printed in another way
                Some(w) => match v.difference(&w) {
                    Some(d) => wrong(&format!("another value: {}{d}", r.name), v.show(), got.show(), json!({})),
                    None if r.framed && *pos as i64 != *e => wrong("the tape is left elsewhere", format!("position {e}"), format!("position {pos}"), json!({})),
                    None => None,
                },
            }
        }
        (Ok((v, _)), x) => wrong("rejected although valid", v.show(), x.show(), json!({})),
        (Err(_), x) => wrong("accepted although invalid", "an error".into(), x.show(), json!({})),
    }
}

fn failure(r: &Reader, m: &Made, aspect: &str, w: Wrong) -> J {
    json!({"mode": "read", "aspect": aspect, "type": r.name, "data": hex(&m.data), "start": m.start, "params": m.params.iter().map(|p| p.to_string()).collect::<Vec<_>>(),
           "what": w.what, "expected": w.expected, "got": w.got, "extra": w.extra})
}

fn shrink(spec: &Spec, r: &Reader, m: Made, aspect: &str, w: Wrong, rng: &mut Rng) -> (Made, Wrong) {
    let (mut m, mut w) = (m, w);
    let t = Instant::now();
    let mut step = m.data.len() / 2;
    while step > 0 && t.elapsed() < Duration::from_secs(2) {
        if m.data.len() > step && m.data.len() - step >= m.start as usize {
            let c = Made { data: m.data[..m.data.len() - step].to_vec(), start: m.start, params: m.params.clone(), places: vec![] };
            if let Some(x) = judge(spec, r, &c, aspect, &mut Report::default(), rng, 450_000, None) { m = c; w = x; continue; }
        }
        step /= 2;
    }
    for i in m.start as usize..m.data.len() {
        if m.data[i] == 0 || t.elapsed() > Duration::from_secs(4) { continue; }
        let mut c = Made { data: m.data.clone(), start: m.start, params: m.params.clone(), places: vec![] };
        c.data[i] = 0;
        if let Some(x) = judge(spec, r, &c, aspect, &mut Report::default(), rng, 450_000, None) { m = c; w = x; }
    }
    (m, w)
}

fn fixtures(dir: &str) -> Vec<(String, Vec<u8>, u64, u64)> {
    let mut out = vec![];
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let Ok(d) = std::fs::read(&f) else { continue };
        if d.len() < 12 { continue; }
        let n = u16::from_be_bytes([d[4], d[5]]) as usize;
        for k in 0..n {
            let Some(r) = d.get(12 + 16 * k..28 + 16 * k) else { break };
            let t = match &r[..4] {
                b"GPOS" => "layout::directory::Directory<tables::glyph_positioning::Type>", b"GSUB" => "layout::directory::Directory<tables::glyph_substitution::Type>",
                b"GDEF" => "tables::glyph_definition::GlyphDefinition", b"fvar" => "tables::font_variations::FontVariations", b"CPAL" => "tables::color_palettes::ColorPalettes",
                _ => continue,
            };
            let o = u32::from_be_bytes(r[8..12].try_into().unwrap()) as u64;
            let l = u32::from_be_bytes(r[12..16].try_into().unwrap()) as u64;
            if o + l <= d.len() as u64 { out.push((t.to_string(), d.clone(), o, l)); }
        }
    }
    out
}

fn reading(spec: &Spec, o: &Opts) -> Report {
    let threads = 8u64;
    let start = Instant::now();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let fx = fixtures(&o.fixtures);
    let readers: Vec<&Reader> = gen::READERS.iter().filter(|r| o.names.iter().any(|n| n == r.name || r.owner.split(',').any(|x| n == x) || n == "all")).collect();
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|th| {
            let (readers, stop, fx, spec) = (&readers, &stop, &fx, spec);
            s.spawn(move || {
                let mut rep = Report::default();
                let mut rng = Rng(o.seed.wrapping_mul(1_000_003).wrapping_add(th));
                // The tables of the fixtures, as they are and changed in one place.
                let tables: Vec<_> = fx.iter().filter(|f| readers.iter().any(|r| r.name == f.0)).collect();
                let mut k = th as usize;
                // Large cases are to take a part of the time only.
                let mut slow = Duration::ZERO;
                while start.elapsed() < Duration::from_millis(o.ms) && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    if readers.is_empty() { break; }
                    if k < tables.len() || (!tables.is_empty() && k % 400 == 399) {
                        let (name, d, at, len) = tables[k % tables.len()];
                        let r = readers.iter().find(|r| r.name == *name).unwrap();
                        let mut m = Made { data: d[*at as usize..(*at + *len) as usize].to_vec(), start: 0, params: vec![], places: vec![] };
                        if k >= tables.len() && !m.data.is_empty() { let i = rng.below(m.data.len().min(400) as u64) as usize; m.data[i] = rng.byte(); }
                        let full = k < tables.len();
                        k += threads as usize;
                        if full && m.data.len() > 30_000 && o.aspect != "decode" { continue; }
                        if m.data.len() > 200_000 { continue; }
                        rep.seen((r.name, &m.data));
                        busy(th, r, &m);
                        let w = judge(spec, r, &m, &o.aspect, &mut rep, &mut rng, 3_000_000, None);
                        idle(th);
                        if let Some(w) = w {
                            rep.failure = Some(failure(r, &m, &o.aspect, w));
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                        continue;
                    }
                    k += threads as usize;
                    let r = *rng.pick(readers);
                    let began = Instant::now();
                    let large = slow * 5 < start.elapsed() * 2;
                    let Some(mut m) = Made_(spec, &mut rng, &o.literals, r.name, large) else { slow += began.elapsed(); continue };
                    let mutated = rng.chance(0.4);
                    if mutated { spec::mutate(&mut rng, &o.literals, &mut m); }
                    let new = rep.seen((r.name, &m.data, m.start, &m.params));
                    let before = rep.accepted;
                    busy(th, r, &m);
                    let w = judge(spec, r, &m, &o.aspect, &mut rep, &mut rng, if large { 450_000 } else { 10_000 }, None);
                    idle(th);
                    if began.elapsed() > Duration::from_millis(3) { slow += began.elapsed(); }
                    if new && rep.samples.len() < 3 && m.data.len() < 120 && m.data.len() > 8 && rep.accepted > before && w.is_none() {
                        rep.samples.push(format!("{} at {} of {}", r.name, m.start, hex(&m.data)));
                    }
                    if let Some(w) = w {
                        let (m, w) = shrink(spec, r, m, &o.aspect, w, &mut rng);
                        rep.failure = Some(failure(r, &m, &o.aspect, w));
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                rep
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    merge(parts)
}
#[allow(non_snake_case)]
fn Made_(spec: &Spec, rng: &mut Rng, lits: &[u64], name: &str, large: bool) -> Option<Made> { spec::Gen::make(spec, rng, lits, name, large) }

pub fn merge(parts: Vec<Report>) -> Report {
    let mut r = Report::default();
    for p in parts {
        r.evaluations += p.evaluations;
        r.distinct.extend(p.distinct);
        r.accepted += p.accepted;
        r.rejected += p.rejected;
        r.skipped += p.skipped;
        for s in p.samples { if r.samples.len() < 4 { r.samples.push(s); } }
        if r.failure.is_none() { r.failure = p.failure; }
        for (k, n) in p.visited { *r.visited.entry(k).or_default() += n; }
        r.exhaustive |= p.exhaustive;
        r.notes.extend(p.notes);
    }
    r
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("HARNESS_TRACE").is_ok() { eprintln!("panic: {m}{l}"); }
        PANIC.with(|p| *p.borrow_mut() = m + &l);
    }));
    let a: Vec<String> = std::env::args().collect();
    let mut args = HashMap::new();
    let mut i = 2;
    while i + 1 < a.len() { args.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone()); i += 2; }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or_else(|| d.to_string());
    let spec = Spec::load(&std::fs::read_to_string(get("spec", "")).expect("the specification"));
    let o = Opts {
        seed: get("seed", "1").parse().unwrap(), ms: get("ms", "3000").parse().unwrap(), names: get("types", "all").split(',').map(str::to_string).collect(),
        aspect: get("aspect", "decode"), literals: std::fs::read_to_string(get("literals", "/dev/null")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default(),
        fixtures: get("fixtures", "/repo/tests/fixtures"), args: args.clone(),
    };
    let aspect = o.aspect.clone();
    std::thread::spawn(|| watch(aspect));
    // The stack of the main thread may be small.
    let rep = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || match &a[1][..] {
        "read" => reading(&spec, &o),
        "fonts" => fonts::run(&spec, &o),
        "items" => items::run(&spec, &o),
        "replay" => replay(&spec, &o, &get("file", "")),
        m => panic!("{m}"),
    }).unwrap().join().unwrap());
    println!("{}", rep.json());
}

fn replay(spec: &Spec, o: &Opts, file: &str) -> Report {
    let j: J = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let mut rep = Report::default();
    let j = if j["case"].is_object() { &j["case"] } else { &j };
    match j["mode"].as_str() {
        Some("read") => {
            let r = gen::READERS.iter().find(|r| r.name == j["type"].as_str().unwrap()).unwrap();
            let m = Made { data: unhex(j["data"].as_str().unwrap()), start: j["start"].as_i64().unwrap(), params: j["params"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().parse().unwrap()).collect(), places: vec![] };
            let f = j["extra"]["fail_at"].as_u64().map(|a| (a, j["extra"]["kind"].as_u64().unwrap_or(0), j["extra"]["chunk"].as_u64().unwrap_or(0)));
            for s in 0..50 {
                busy(0, r, &m);
                if let Some(w) = judge(spec, r, &m, j["aspect"].as_str().unwrap(), &mut rep, &mut Rng(s), 3_000_000, f) {
                    rep.failure = Some(failure(r, &m, j["aspect"].as_str().unwrap(), w));
                    break;
                }
            }
        }
        Some("font") => fonts::replay(spec, o, j, &mut rep),
        Some("item") => items::replay(spec, o, j, &mut rep),
        _ => rep.notes.push("no input to replay".into()),
    }
    rep
}
