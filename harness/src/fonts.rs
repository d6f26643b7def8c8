//! Files and fonts: directories, lookup of tables, checksums.
use crate::rng::Rng;
use crate::spec::Spec;
use crate::{gen, guard, hex, merge, unhex, Opts, Report, Tape};
use opentype::tape::Read as _;
use opentype::truetype::Tag;
use opentype::{File, Font, Result, Table};
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

const CHECK: bool = !cfg!(feature = "all");
const SIGNATURES: [u32; 4] = [0x00010000, 0x4F54544F, 0x74727565, 0x74797031];
const TTCF: u32 = 0x74746366;

/// A table that tells where it was read from.
pub struct Probe<const TAG: u32> { at: u64, head: u16, given: Option<u64> }
impl<const TAG: u32> Table for Probe<TAG> { fn tag() -> Tag { Tag::from(TAG) } }
impl<const TAG: u32> opentype::value::Read for Probe<TAG> {
    fn read<T: opentype::tape::Read>(tape: &mut T) -> Result<Self> { Ok(Probe { at: tape.position()?, head: tape.take()?, given: None }) }
}
impl<const TAG: u32> opentype::walue::Read<'static> for Probe<TAG> {
    type Parameter = u64;
    fn read<T: opentype::tape::Read>(tape: &mut T, p: u64) -> Result<Self> { Ok(Probe { at: tape.position()?, head: tape.take()?, given: Some(p) }) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got { Error, Absent, Present(u64, Option<u16>, Option<u64>) }
struct Ops { tag: u32, exists: fn(&Font) -> bool, position: fn(&Font, &mut Tape) -> Result<Option<()>>, take: fn(&Font, &mut Tape) -> Result<Option<(u64, u16, Option<u64>)>>, given: fn(&Font, &mut Tape, u64) -> Result<Option<(u64, u16, Option<u64>)>> }
macro_rules! ops { ($($t:expr),*) => { &[$(Ops {
    tag: $t, exists: |f| f.exists::<Probe<{ $t }>>(), position: |f, t| f.position::<_, Probe<{ $t }>>(t),
    take: |f, t| f.take::<_, Probe<{ $t }>>(t).map(|p| p.map(|p| (p.at, p.head, p.given))),
    given: |f, t, g| f.take_given::<_, Probe<{ $t }>>(t, g).map(|p| p.map(|p| (p.at, p.head, p.given))),
}),*] } }
const OPS: &[Ops] = ops![0x68656164, 0x47504F53, 0x61616161, 0x7A7A7A7A, 0, 0xFFFFFFFF, 0x68656165, 0x48454144, 0x43464620];

#[derive(Clone, Copy)]
struct Rec { tag: u32, checksum: u32, offset: u32, size: u32 }
fn be(d: &[u8], p: usize, n: usize) -> Option<u64> { d.get(p..p.checked_add(n)?).map(|b| b.iter().fold(0, |a, x| a << 8 | *x as u64)) }

/// The directory at a place, if it is complete and of a known kind.
fn directory(d: &[u8], start: usize) -> Option<([u64; 5], Vec<Rec>)> {
    let v = be(d, start, 4)?;
    if !SIGNATURES.contains(&(v as u32)) { return None; }
    let h = [v, be(d, start + 4, 2)?, be(d, start + 6, 2)?, be(d, start + 8, 2)?, be(d, start + 10, 2)?];
    let mut rs = vec![];
    for k in 0..h[1] as usize {
        let p = start + 12 + 16 * k;
        rs.push(Rec { tag: be(d, p, 4)? as u32, checksum: be(d, p + 4, 4)? as u32, offset: be(d, p + 8, 4)? as u32, size: be(d, p + 12, 4)? as u32 });
    }
    Some((h, rs))
}
/// The checksum of the bytes of a table, if they are all there; and whether the padding is, too.
fn checksum(d: &[u8], r: &Rec) -> Option<(u32, bool)> {
    let (a, n) = (r.offset as u64, r.size as u64);
    if n > 0 && a + n > d.len() as u64 { return None; }
    let mut sum = 0u32;
    let b = |j: u64| if j < n { d[(a + j) as usize] as u32 } else { 0 };
    for i in 0..(n + 3) / 4 {
        if r.tag == 0x68656164 && i == 2 { continue; }
        sum = sum.wrapping_add(b(4 * i) << 24 | b(4 * i + 1) << 16 | b(4 * i + 2) << 8 | b(4 * i + 3));
    }
    Some((sum, n == 0 || a + (n + 3) / 4 * 4 <= d.len() as u64))
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Want { Yes, No, Either }
fn valid(d: &[u8], r: &Rec) -> Want {
    if !CHECK { return Want::Yes; }
    if r.size > u32::MAX - 4 { return Want::No; }
    match checksum(d, r) {
        Some((s, padded)) if s == r.checksum => if padded { Want::Yes } else { Want::Either },
        _ => Want::No,
    }
}

struct Bad { properties: &'static [&'static str], what: String, expected: String, got: String, extra: J }
fn bad(p: &'static [&'static str], what: &str, expected: String, got: String) -> Option<Bad> { Some(Bad { properties: p, what: what.into(), expected, got, extra: json!({}) }) }

fn show_dir(f: &[Font]) -> String {
    f.iter().map(|f| { let h = &f.offsets.header; format!("[{:x} {} {} {} {}; {}]", h.version, h.table_count, h.search_range, h.entry_selector, h.range_shift,
        f.offsets.records.iter().map(|r| format!("{:08x} {:08x} {:x} {:x}", u32::from(r.tag), r.checksum, r.offset, r.size)).collect::<Vec<_>>().join(", ")) }).collect::<Vec<_>>().join(" ")
}

fn generate(rng: &mut Rng, lits: &[u64]) -> (Vec<u8>, usize) {
    let start = *rng.pick(&[0usize, 0, 0, 4, 7]);
    let mut d = vec![0u8; start];
    for b in &mut d { *b = rng.byte(); }
    let sig = match rng.below(20) { 0 => TTCF, 1 => rng.next() as u32, 2 => SIGNATURES[rng.below(4) as usize] ^ 1 << rng.below(32), _ => *rng.pick(&SIGNATURES) };
    d.extend(sig.to_be_bytes());
    let n = *rng.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5, 9, 30]);
    d.extend((n as u16).to_be_bytes());
    for _ in 0..6 { d.push(rng.byte()); }
    let dir = d.len();
    d.resize(dir + 16 * n, 0);
    let mut rs: Vec<Rec> = vec![];
    for _ in 0..n {
        let tag = match rng.below(10) { 0 => rng.next() as u32, 1 => gen_tag(rng), 2 if !rs.is_empty() => rng.pick(&rs).tag, _ => OPS[rng.below(OPS.len() as u64) as usize].tag };
        for _ in 0..rng.below(4) { d.push(rng.byte()); }
        let (offset, size);
        match rng.below(14) {
            0 => { offset = rng.next() as u32; size = rng.below(40) as u32; }
            1 => { offset = rng.below(d.len() as u64 + 4) as u32; size = rng.below(40) as u32; }
            2 => { offset = d.len() as u32; size = *rng.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 3, u32::MAX - 4, 0x8000_0000, 0x1000]); }
            3 => { offset = *rng.pick(&[0, u32::MAX, 0x8000_0000]); size = 0; }
            4 => { offset = d.len() as u32; size = if lits.is_empty() { 7 } else { (*rng.pick(lits)).min(5000) as u32 + rng.below(3) as u32 }; let m = size; for _ in 0..m { d.push(rng.byte()); } }
            _ => { offset = d.len() as u32; size = *rng.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 54, 54, 61]); for _ in 0..size { d.push(rng.byte()); } }
        }
        rs.push(Rec { tag, checksum: 0, offset, size });
    }
    if rng.chance(0.7) { for _ in 0..4 { d.push(rng.byte()); } }
    // The directory may overlap with tables: the checksums of what is there at the end.
    for (k, r) in rs.iter().enumerate() { put(&mut d, dir + 16 * k, r); }
    for k in 0..rs.len() {
        let mut r = rs[k];
        let right = checksum(&d, &r).map(|x| x.0).unwrap_or(0);
        r.checksum = match rng.below(20) {
            0 => right.wrapping_add(1), 1 => right ^ 1 << rng.below(32), 2 => 0, 3 => rng.next() as u32,
            4 => whole(&d, &r, false, true), 5 => whole(&d, &r, true, false), 6 => whole(&d, &r, true, true), 7 => right.wrapping_sub(1), 8 => right.swap_bytes(),
            _ => right,
        };
        put(&mut d, dir + 16 * k, &r);
    }
    if rng.chance(0.06) { let n = rng.below(d.len() as u64 + 1) as usize; d.truncate(n.max(start)); }
    (d, start)
}
fn gen_tag(rng: &mut Rng) -> u32 { let t = gen::table_tags(); u32::from_be_bytes(t[rng.below(t.len() as u64) as usize].1) }
fn put(d: &mut [u8], p: usize, r: &Rec) {
    for (i, v) in [r.tag, r.checksum, r.offset, r.size].iter().enumerate() { d[p + 4 * i..p + 4 * i + 4].copy_from_slice(&v.to_be_bytes()); }
}
/// Checksums that are wrong unless by chance: with the adjustment, with what follows in the last word.
fn whole(d: &[u8], r: &Rec, adjustment: bool, rest: bool) -> u32 {
    let b = |j: u64| if j < r.size as u64 || rest { d.get((r.offset as u64 + j) as usize).copied().unwrap_or(0) as u32 } else { 0 };
    let mut sum = 0u32;
    for i in 0..((r.size.min(10_000) as u64) + 3) / 4 {
        if !adjustment && r.tag == 0x68656164 && i == 2 { continue; }
        sum = sum.wrapping_add(b(4 * i) << 24 | b(4 * i + 1) << 16 | b(4 * i + 2) << 8 | b(4 * i + 3));
    }
    sum
}

fn font(d: &[u8], start: usize, rep: &mut Report, rng: &mut Rng, faults: bool) -> Option<Bad> {
    let want = directory(d, start);
    let mut tape = Tape::new(d, 0, start as u64);
    rep.evaluations += 1;
    match &want { Some(_) => rep.accepted += 1, None => rep.rejected += 1 }
    let got = match guard(|| File::read(&mut tape)) { Ok(g) => g, Err(p) => return bad(&["C01", "C06"], "a panic when reading a file", "a value or an error".into(), p) };
    let expected = |w: &Option<([u64; 5], Vec<Rec>)>| match w { None => "an error".to_string(), Some((h, rs)) => format!("[{:x} {} {} {} {}; {}]", h[0], h[1], h[2], h[3], h[4],
        rs.iter().map(|r| format!("{:08x} {:08x} {:x} {:x}", r.tag, r.checksum, r.offset, r.size)).collect::<Vec<_>>().join(", ")) };
    let e = expected(&want);
    let g = match &got { Ok(f) => show_dir(&f.fonts), Err(_) => "an error".into() };
    if e != g { return bad(&["C06"], "reading a file", e, g); }
    if faults {
        if let Some(b) = fault(d, start as u64, rep, "reading a file", |t| File::read(t).map(|f| show_dir(&f.fonts))) { return Some(b); }
    }
    // The directory alone.
    let g = match guard(|| Font::read(&mut Tape::new(d, 0, start as u64))) { Ok(Ok(f)) => show_dir(&[f]), Ok(Err(_)) => "an error".into(), Err(p) => return bad(&["C01", "C06"], "a panic when reading a font", "a value or an error".into(), p) };
    if e != g { return bad(&["C06"], "reading a font", e, g); }
    let Ok(file) = got else { return None };
    let f = &file.fonts[0];
    let rs = want.unwrap().1;
    for o in OPS {
        let first = rs.iter().find(|r| r.tag == o.tag);
        let x = guard(|| (o.exists)(f));
        if let Err(p) = x { return bad(&["C01", "C04"], "a panic when checking for a table", "a value".into(), p); }
        if x != Ok(first.is_some()) { return bad(&["C04"], &format!("checking for {:08x}", o.tag), first.is_some().to_string(), format!("{x:?}")); }
        let at = *rng.pick(&[0u64, 1, start as u64, 1000, d.len() as u64]);
        let p = rng.next();
        for how in 0..3 {
            rep.evaluations += 1;
            let mut t = Tape::new(d, 0, at);
            let (g, end) = match guard(|| { let g = go(o, f, &mut t, how, p); (g, t.pos) }) { Ok(x) => x, Err(p) => return bad(&["C01"], &format!("a panic when {} {:08x}", HOW[how], o.tag), "a value or an error".into(), p) };
            let what = format!("{} {:08x}", HOW[how], o.tag);
            match first {
                None => if g != Got::Absent || end != at { return bad(&["C04"], &what, format!("absent, the tape at {at}"), format!("{g:?}, the tape at {end}")); },
                Some(r) => {
                    let ok = valid(d, r);
                    let value = be(d, r.offset as usize, 2).map(|x| x as u16);
                    let present = match how { 0 => Some(Got::Present(r.offset as u64, None, None)), _ => value.map(|v| Got::Present(r.offset as u64, Some(v), if how == 2 { Some(p) } else { None })) };
                    let w = format!("first record: offset {} size {} checksum {:08x} ({ok:?})", r.offset, r.size, r.checksum);
                    match (&g, &present) {
                        (Got::Absent, _) => return bad(&["C04"], &what, w, "absent".into()),
                        (Got::Present(..), _) if ok == Want::No => return bad(&["C05"], &what, w, format!("{g:?}")),
                        (Got::Present(..), Some(e)) if g != *e => return bad(&["C04"], &what, w, format!("{g:?}")),
                        (Got::Present(..), None) => return bad(&["C04"], &what, w, format!("{g:?}")),
                        (Got::Error, Some(_)) if ok == Want::Yes => return bad(if CHECK { &["C05"] } else { &["C04", "C05"] }, &what, w, "an error".into()),
                        _ => {}
                    }
                }
            }
            if faults && rng.chance(0.3) {
                if let Some(b) = fault(d, at, rep, &what, |t| match go(o, f, t, how, p) { Got::Error => Err(std::io::Error::other("")), g => Ok(format!("{g:?} {}", t.pos)) }) { return Some(b); }
            }
        }
    }
    None
}
const HOW: [&str; 3] = ["jumping to", "taking", "taking given a parameter"];
fn go(o: &Ops, f: &Font, t: &mut Tape, how: usize, p: u64) -> Got {
    match how {
        0 => match (o.position)(f, t) { Ok(Some(())) => Got::Present(t.pos, None, None), Ok(None) => Got::Absent, Err(_) => Got::Error },
        _ => match if how == 1 { (o.take)(f, t) } else { (o.given)(f, t, p) } { Ok(Some((a, h, g))) => Got::Present(a, Some(h), g), Ok(None) => Got::Absent, Err(_) => Got::Error },
    }
}
/// Failures surface, and splitting reads does not matter.
fn fault(d: &[u8], at: u64, rep: &mut Report, what: &str, f: impl Fn(&mut Tape) -> Result<String>) -> Option<Bad> {
    let mut t = Tape::new(d, 0, at);
    let plain = guard(|| f(&mut t).ok()).ok()?;
    let n = t.ops;
    for (chunk, interrupt) in [(1, false), (3, true)] {
        let mut t = Tape::new(d, 0, at);
        t.chunk = chunk;
        t.interrupt = interrupt;
        let x = guard(|| f(&mut t).ok());
        if x != Ok(plain.clone()) { return bad(&["C02"], &format!("{what} with short reads"), format!("{plain:?}"), format!("{x:?}")); }
    }
    let step = if n > 60 { n / 30 } else { 1 };
    for a in (0..n).step_by(step as usize) {
        let mut t = Tape::new(d, 0, at);
        t.fail = Some(a);
        t.kind = crate::tape::KINDS[(a as usize + d.len()) % crate::tape::KINDS.len()];
        rep.evaluations += 1;
        let x = guard(|| f(&mut t).ok());
        if t.failed && x != Ok(None) {
            let mut b = bad(&["C02"], &format!("{what}: a failure of the reader does not surface"), "an error".into(), format!("{x:?}"))?;
            b.extra = json!({"fail_at": a});
            return Some(b);
        }
    }
    None
}

fn static_checks(o: &Opts, rep: &mut Report) -> Option<Bad> {
    for (n, want, got) in gen::table_tags() {
        rep.evaluations += 1;
        if got.0 != want { return bad(&["C04"], &format!("the tag of {n}"), format!("{:?}", Tag(want)), format!("{got:?}")); }
    }
    let one = |t: u32| opentype::accept(&Tag::from(t)) == (SIGNATURES.contains(&t) || t == TTCF);
    let mut ts = vec![0, u32::MAX, 0x01000000, 0x00020000, 0x4F545443];
    for s in SIGNATURES.iter().chain([&TTCF]) {
        for i in 0..32 { ts.push(s ^ 1 << i); for j in 0..i { ts.push(s ^ 1 << i ^ 1 << j); } }
        ts.push(*s);
        ts.push(s.swap_bytes());
    }
    for t in ts {
        rep.evaluations += 1;
        if guard(|| one(t)) != Ok(true) { return bad(&["C06"], &format!("recognizing {t:08x}"), (SIGNATURES.contains(&t) || t == TTCF).to_string(), "otherwise".into()); }
    }
    // All the tags there are.
    let all = o.args.get("exhaustive").is_some_and(|x| x == "1");
    let wrong: Vec<u32> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64).map(|th| s.spawn(move || {
            let step = if all { 1 } else { 4099 };
            let mut t = th << 29;
            while t < (th + 1) << 29 { if !one(t as u32) { return Some(t as u32); } t += step; }
            None
        })).collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
    });
    rep.evaluations += if all { 1 << 32 } else { (1 << 32) / 4099 };
    if let Some(t) = wrong.first() { return bad(&["C06"], &format!("recognizing {t:08x}"), (SIGNATURES.contains(t) || *t == TTCF).to_string(), "otherwise".into()); }
    if all { rep.notes.push("accept: all 2^32 tags".into()); }
    None
}

fn value(b: Bad, d: &[u8], start: usize) -> J {
    json!({"mode": "font", "data": hex(d), "start": start, "properties": b.properties, "what": b.what, "expected": b.expected, "got": b.got, "extra": b.extra})
}

pub fn run(_: &Spec, o: &Opts) -> Report {
    let want = |b: &Bad| o.names.iter().any(|n| n == "all" || b.properties.contains(&&n[..]));
    let mut first = Report::default();
    if let Some(b) = static_checks(o, &mut first) { if want(&b) { first.failure = Some(value(b, &[], 0)); return first; } }
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let faults = o.names.iter().any(|n| n == "C02" || n == "all");
    let mut parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64).map(|th| { let stop = &stop; s.spawn(move || {
            let mut rep = Report::default();
            let mut rng = Rng(o.seed.wrapping_mul(9_000_011).wrapping_add(th));
            while start.elapsed() < Duration::from_millis(o.ms) && !stop.load(Ordering::Relaxed) {
                let (d, at) = generate(&mut rng, &o.literals);
                rep.seen(&d);
                if let Some(b) = font(&d, at, &mut rep, &mut rng, faults) {
                    if !want(&b) { continue; }
                    // Shorter, if it shows the same.
                    let (mut d, mut b) = (d, b);
                    for n in [1, 4, 16, 64, 16, 4, 1] {
                        while d.len() > n + at {
                            match font(&d[..d.len() - n], at, &mut Report::default(), &mut rng, faults) { Some(x) if x.properties == b.properties => { d.truncate(d.len() - n); b = x; } _ => break }
                        }
                    }
                    rep.failure = Some(value(b, &d, at));
                    stop.store(true, Ordering::Relaxed);
                } else if rep.samples.len() < 2 && d.len() < 120 && d.len() > 40 { rep.samples.push(format!("font at {at} of {}", hex(&d))); }
            }
            rep
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    parts.push(first);
    merge(parts)
}

pub fn replay(_: &Spec, o: &Opts, j: &J, rep: &mut Report) {
    let d = unhex(j["data"].as_str().unwrap());
    let at = j["start"].as_u64().unwrap() as usize;
    let want: Vec<&str> = j["properties"].as_array().unwrap().iter().filter_map(|p| p.as_str()).collect();
    if let Some(b) = static_checks(o, rep) { if b.properties.iter().any(|p| want.contains(p)) { rep.failure = Some(value(b, &[], 0)); return; } }
    for s in 0..50 {
        if let Some(b) = font(&d, at, rep, &mut Rng(s), true) { if b.properties.iter().any(|p| want.contains(p)) { rep.failure = Some(value(b, &d, at)); return; } }
    }
}
