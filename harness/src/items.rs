//! Lookups by tag, tag registries, color palettes, flag words.
use crate::rng::Rng;
use crate::spec::{Gen, Made, Oracle, Spec, Stop};
use crate::val::Val;
use crate::{gen, guard, hex, judge, merge, unhex, Entry, Opts, Report, Tape};
use opentype::layout::{Feature, Language, Script};
use opentype::tape::Read as _;
use opentype::truetype::Tag;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

const SCRIPTS: &str = "layout::script::Scripts";
const SCRIPT: &str = "layout::script::Record";
const FEATURES: &str = "layout::feature::Features";
const PALETTES: &str = "tables::color_palettes::ColorPalettes";

pub fn run(spec: &Spec, o: &Opts) -> Report {
    let want = |p: &str| o.names.iter().any(|n| n == p || n == "all");
    let mut parts = vec![];
    let stop = AtomicBool::new(false);
    if want("C22") { parts.push(flags()); }
    if want("C10") { parts.push(registries(o)); }
    if want("C09") || want("C21") {
        let start = Instant::now();
        let (a, b) = (want("C09"), want("C21"));
        let rs: Vec<Report> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64).map(|th| { let stop = &stop; s.spawn(move || {
                let mut rep = Report::default();
                let mut rng = Rng(o.seed.wrapping_mul(7_000_003).wrapping_add(th));
                let keys = keys();
                while start.elapsed() < Duration::from_millis(o.ms) && !stop.load(Ordering::Relaxed) {
                    let name = if a && (!b || rng.chance(0.5)) { *rng.pick(&[SCRIPTS, SCRIPT, FEATURES]) } else { PALETTES };
                    let rng_large = rng.chance(0.3);
                    let Some(mut m) = Gen::make(spec, &mut rng, &o.literals, name, rng_large) else { continue };
                    if name != PALETTES { retag(spec, &mut rng, name, &mut m, &keys); } else if rng.chance(0.3) { crate::spec::mutate(&mut rng, &o.literals, &mut m); }
                    rep.seen((name, &m.data));
                    if let Some(w) = one(spec, name, &m, &keys, &mut rng, &mut rep) {
                        rep.failure = Some(json!({"mode": "item", "type": name, "data": hex(&m.data), "start": m.start, "what": w.0, "expected": w.1, "got": w.2, "extra": w.3}));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                rep
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        parts.extend(rs);
    }
    merge(parts)
}

/// Known values by tag.
struct Keys { script: Vec<(Script, u32)>, language: Vec<(Language, u32)>, feature: Vec<(Feature, u32)> }
fn keys() -> Keys {
    let t = |t: [u8; 4]| u32::from_be_bytes(t);
    Keys {
        script: gen::registry_script().into_iter().map(|e| (e.value, t(e.tag))).collect(),
        language: gen::registry_language().into_iter().map(|e| (e.value, t(e.tag))).collect(),
        feature: gen::registry_feature().into_iter().map(|e| (e.value, t(e.tag))).collect(),
    }
}

/// Where the tags of a list are.
fn places(name: &str, d: &[u8], start: usize) -> Vec<usize> {
    let base = start + if name == SCRIPT { 4 } else { 2 };
    let n = match d.get(base - 2..base) { Some(x) => u16::from_be_bytes([x[0], x[1]]) as usize, None => return vec![] };
    (0..n).map(|k| base + 6 * k).take_while(|p| p + 6 <= d.len()).collect()
}

fn retag(_: &Spec, rng: &mut Rng, name: &str, m: &mut Made, keys: &Keys) {
    let ps = places(name, &m.data, m.start as usize);
    let few: Vec<u32> = (0..1 + rng.below(4)).map(|_| match rng.below(5) {
        0 => rng.next() as u32,
        1 => *rng.pick(&[0u32, u32::MAX, 0x44464C54, 0x6C61746E, 0x64666C74]),
        2 => rng.pick(&keys.script).1,
        3 => rng.pick(&keys.language).1,
        _ => rng.pick(&keys.feature).1,
    }).collect();
    let sorted = rng.chance(0.4);
    let mut ts: Vec<u32> = ps.iter().map(|_| { let t = *rng.pick(&few); if rng.chance(0.1) { t ^ 1 << rng.below(32) } else { t } }).collect();
    if sorted { ts.sort(); }
    for (p, t) in ps.iter().zip(ts) { m.data[*p..*p + 4].copy_from_slice(&t.to_be_bytes()); }
}

fn fields<'a>(v: &'a Val, f: &str) -> &'a [Val] {
    match v { Val::Struct(_, fs) => match fs.iter().find(|(k, _)| k == f) { Some((_, Val::List(l))) => l, _ => &[] }, _ => &[] }
}
fn field<'a>(v: &'a Val, f: &str) -> &'a Val {
    match v { Val::Struct(_, fs) => &fs.iter().find(|(k, _)| k == f).unwrap().1, _ => unreachable!() }
}
fn int(v: &Val) -> i128 { match v { Val::Int(i) => *i, _ => unreachable!() } }

fn place<R: std::fmt::Debug>(rs: &[R], r: Option<&R>) -> Option<(String, usize)> {
    r.map(|r| (format!("{r:?}"), rs.iter().position(|x| std::ptr::eq(x, r)).unwrap_or(usize::MAX)))
}

type Bad = (String, String, String, J);

fn one(spec: &Spec, name: &str, m: &Made, keys: &Keys, rng: &mut Rng, rep: &mut Report) -> Option<Bad> {
    let mut o = Oracle::new(spec, &m.data);
    let e = o.decode(name, m.start, &[]);
    if e == Err(Stop::Budget) { rep.skipped += 1; return None; }
    rep.evaluations += 1;
    match &e { Ok(_) => rep.accepted += 1, _ => rep.rejected += 1 }
    for (k, n) in o.visited { *rep.visited.entry(k).or_default() += n; }
    let mut tape = Tape::new(&m.data, 0, m.start as u64);
    if name == PALETTES {
        return palettes(&mut tape, e.ok().map(|x| x.0));
    }
    let (hs, rs) = if name == SCRIPT { ("language_headers", "language_records") } else { ("headers", "records") };
    macro_rules! lookups {
        ($t:ty, $v:ident, $tags:ident, $recs:ident) => {{
            let r = guard(|| tape.take::<$t>());
            let v = match r { Ok(Ok(v)) => v, Ok(Err(_)) => return None, Err(p) => return Some(("a panic".into(), "a value".into(), p, json!({}))) };
            let tags: Vec<u32> = v.$tags.iter().map(|h| u32::from(h.tag)).collect();
            // What was read, as it prints; whether it is right is another matter unless the lookup shows it.
            let shown: Vec<String> = v.$recs.iter().map(|r| format!("{r:?}")).collect();
            let mut queries: Vec<u32> = tags.iter().take(6).copied().collect();
            queries.extend([rng.next() as u32, 0, tags.first().copied().unwrap_or(1) ^ 1 << rng.below(32), tags.last().copied().unwrap_or(1).wrapping_add(1), tags.last().copied().unwrap_or(2)]);
            let check = |q: u32, how: &str, got: Result<Option<(String, usize)>, String>| -> Option<Bad> {
                let first = tags.iter().position(|t| *t == q);
                let show = |i: usize| shown.get(i).cloned().unwrap_or_default();
                let expected = match first { Some(i) => format!("record {i}: {}", show(i)), None => "nothing".into() };
                let x = match got {
                    Err(p) => format!("PANIC: {p}"),
                    Ok(None) => "nothing".into(),
                    Ok(Some((s, at))) => match first {
                        // Lists of the same length: compare by place, as records may print alike.
                        Some(i) if at == i && s == show(i) => return None,
                        _ => format!("record {at}: {s}"),
                    },
                };
                if expected == x { return None; }
                Some((format!("looking up by {how}"), expected, x, json!({"tag": format!("{q:08x}"), "how": how})))
            };
            for q in queries {
                rep.evaluations += 1;
                if let Some(b) = check(q, "tag", guard(|| place(&v.$recs, v.get(Tag::from(q))))) { return Some(b); }
                for (k, t) in &keys.script { if *t == q { if let Some(b) = check(q, "script", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); } } }
                for (k, t) in &keys.language { if *t == q { if let Some(b) = check(q, "language", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); } } }
                for (k, t) in &keys.feature { if *t == q { if let Some(b) = check(q, "feature", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); } } }
            }
            let (k, t) = rng.pick(&keys.script); if let Some(b) = check(*t, "script", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); }
            let (k, t) = rng.pick(&keys.language); if let Some(b) = check(*t, "language", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); }
            let (k, t) = rng.pick(&keys.feature); if let Some(b) = check(*t, "feature", guard(|| place(&v.$recs, v.get(*k)))) { return Some(b); }
            // The records are those of the entries.
            if let Ok((e, _)) = &e {
                let at0: Vec<u32> = fields(e, hs).iter().map(|h| int(field(h, "tag")) as u32).collect();
                let rec = fields(e, rs);
                for (i, t) in at0.iter().enumerate() {
                    if at0[..i].contains(t) { continue; }
                    let got = v.get(Tag::from(*t)).map(|r| format!("{r:?}"));
                    let ok = match &got { Some(s) => crate::val::parse(s).is_some_and(|x| rec[i].difference(&x).is_none()), None => false };
                    if !ok { return Some(("looking up an entry by tag".into(), rec[i].show(), got.unwrap_or("nothing".into()), json!({"tag": format!("{t:08x}"), "how": "tag"}))); }
                }
            }
            None
        }};
    }
    match name {
        SCRIPTS => lookups!(opentype::layout::script::Scripts, v, headers, records),
        SCRIPT => lookups!(opentype::layout::script::Record, v, language_headers, language_records),
        _ => lookups!(opentype::layout::feature::Features, v, headers, records),
    }
}

fn palettes(tape: &mut Tape, e: Option<Val>) -> Option<Bad> {
    let show = |v: &Vec<Vec<(u8, u8, u8, u8)>>| format!("{v:?}").chars().take(600).collect::<String>();
    let r = guard(|| tape.take::<opentype::tables::ColorPalettes>());
    let v = match (r, &e) {
        (Ok(Ok(v)), _) => v,
        (Ok(Err(_)), None) => return None,
        (Ok(Err(x)), Some(_)) => return Some(("rejected although valid".into(), "a value".into(), x.to_string(), json!({}))),
        (Err(p), _) => return Some(("a panic".into(), "a value or an error".into(), p, json!({}))),
    };
    let got = guard(|| v.iter().map(|p| p.map(|c| (c.blue, c.green, c.red, c.alpha)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let got = match got { Ok(g) => g, Err(p) => return Some(("a panic when iterating".into(), "palettes".into(), p, json!({}))) };
    let Some(e) = e else { return Some(("accepted although invalid".into(), "an error".into(), show(&got), json!({}))) };
    let Val::Tuple(_, h) = field(&e, "header") else { unreachable!() };
    let colors: Vec<_> = fields(&e, "colors").iter().map(|c| { let b = |n| int(field(c, n)) as u8; (b("blue"), b("green"), b("red"), b("alpha")) }).collect();
    let n = int(field(&h[0], "entry_count")) as usize;
    let want: Vec<Vec<_>> = fields(&h[0], "color_indices").iter().map(|i| colors[int(i) as usize..int(i) as usize + n].to_vec()).collect();
    if want != got { return Some(("other palettes".into(), show(&want), show(&got), json!({}))); }
    None
}

/// All the words of all the flags.
fn flags() -> Report {
    let mut rep = Report::default();
    rep.exhaustive = true;
    for f in gen::FLAGS {
        let r = gen::READERS.iter().find(|r| r.name == f.name);
        for w in 0..=0xFFFFu16 {
            rep.evaluations += 1;
            if let Some(b) = flag(f, r, w) {
                rep.failure = Some(json!({"mode": "item", "type": f.name, "flags": w, "what": b.0, "expected": b.1, "got": b.2, "extra": {}}));
                return rep;
            }
        }
        rep.visited.insert(f.name.to_string(), 65536);
        rep.accepted += 65536;
        for w in 0..=0xFFFFu32 { rep.seen((f.name, w)); }
    }
    rep
}
fn flag(f: &crate::FlagWord, r: Option<&crate::Reader>, w: u16) -> Option<Bad> {
    for (n, m, p) in f.bits {
        let x = guard(|| p(w));
        if x != Ok(w & m != 0) { return Some((format!("{}::{n} of {w:#06x}", f.name), (w & m != 0).to_string(), format!("{x:?}"), json!({}))); }
    }
    let x = guard(|| (f.is_invalid)(w));
    if x != Ok(w & f.invalid != 0) { return Some((format!("{}::is_invalid of {w:#06x}", f.name), (w & f.invalid != 0).to_string(), format!("{x:?}"), json!({}))); }
    let x = guard(|| (f.back)(w));
    if x != Ok(w) { return Some((format!("{} of {w:#06x} as a number", f.name), w.to_string(), format!("{x:?}"), json!({}))); }
    if let Some(r) = r {
        let d = w.to_be_bytes();
        let x = crate::run(r, &mut Tape::new(&d, 0, 0), &[]);
        let want = if w & f.invalid != 0 { "an error".to_string() } else { format!("{}({w:#b})", f.name.rsplit("::").next().unwrap()) };
        let ok = match &x { crate::Outcome::Ok(s, p) => *p == 2 && w & f.invalid == 0 && crate::val::parse(s) == crate::val::parse(&want), crate::Outcome::Err(_) => w & f.invalid != 0, _ => false };
        if !ok { return Some((format!("reading {} from {w:#06x}", f.name), want, x.show(), json!({}))); }
    }
    None
}

/// A registry as a map.
struct Registry<T: 'static> { kind: &'static str, rows: Vec<Entry<T>>, from: fn(&Tag) -> T, name: fn(&T) -> Option<&'static str>, codes: fn(&T) -> Vec<&'static str>, other: fn(Tag) -> T }

fn registries(o: &Opts) -> Report {
    let all = o.args.get("exhaustive").is_some_and(|x| x == "1");
    let s = Registry { kind: "Script", rows: gen::registry_script(), from: Script::from_tag, name: Script::name, codes: |_| vec![], other: Script::Other };
    let l = Registry { kind: "Language", rows: gen::registry_language(), from: Language::from_tag, name: Language::name, codes: |l| l.codes().collect(), other: Language::Other };
    let f = Registry { kind: "Feature", rows: gen::registry_feature(), from: Feature::from_tag, name: Feature::name, codes: |_| vec![], other: Feature::Other };
    let mut parts = vec![registry(&s, o, all)];
    parts.push(registry(&l, o, all));
    parts.push(registry(&f, o, all));
    let mut r = merge(parts);
    r.exhaustive = all;
    r
}

fn bad(kind: &str, tag: u32, what: &str, expected: String, got: String) -> Option<J> {
    Some(json!({"mode": "item", "type": kind, "tag": format!("{tag:08x}"), "what": what, "expected": expected, "got": got, "extra": {}}))
}

fn registry<T: Copy + PartialEq + std::fmt::Debug + Into<Tag> + Sync + Send>(r: &Registry<T>, o: &Opts, all: bool) -> Report {
    let mut rep = Report::default();
    let mut known: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, e) in r.rows.iter().enumerate() { known.entry(u32::from_be_bytes(e.tag)).or_default().push(i); }
    // Values.
    for e in &r.rows {
        rep.evaluations += 1;
        rep.accepted += 1;
        let t = u32::from_be_bytes(e.tag);
        let x: Result<u32, _> = guard(|| { let t: Tag = e.value.into(); u32::from(t) });
        if x != Ok(t) { rep.failure = bad(r.kind, t, &format!("the tag of {:?}", e.value), format!("{t:08x}"), format!("{x:x?}")); return rep; }
        let n = guard(|| (r.name)(&e.value));
        if n != Ok(Some(e.name)) { rep.failure = bad(r.kind, t, &format!("the name of {:?}", e.value), e.name.into(), format!("{n:?}")); return rep; }
        let c = guard(|| (r.codes)(&e.value));
        if c != Ok(e.codes.to_vec()) { rep.failure = bad(r.kind, t, &format!("the codes of {:?}", e.value), format!("{:?}", e.codes), format!("{c:?}")); return rep; }
        rep.visited.insert(format!("{}::{:?}", r.kind, e.value), 1);
    }
    // Tags.
    let tag = |t: u32| -> Option<J> {
        let v = match guard(|| (r.from)(&Tag::from(t))) { Ok(v) => v, Err(p) => return bad(r.kind, t, "a panic", "a value".into(), p) };
        match known.get(&t) {
            Some(is) => { if !is.iter().any(|i| r.rows[*i].value == v) { return bad(r.kind, t, "the value of a known tag", format!("{:?}", r.rows[is[0]].value), format!("{v:?}")); } }
            None => {
                if v != (r.other)(Tag::from(t)) { return bad(r.kind, t, "the value of an unknown tag", format!("{:?}", (r.other)(Tag::from(t))), format!("{v:?}")); }
                let n = guard(|| (r.name)(&v));
                if n != Ok(None) { return bad(r.kind, t, "the name of an unknown tag", "none".into(), format!("{n:?}")); }
                let c = guard(|| (r.codes)(&v));
                if c != Ok(vec![]) { return bad(r.kind, t, "the codes of an unknown tag", "none".into(), format!("{c:?}")); }
            }
        }
        let x: Result<u32, _> = guard(|| { let t: Tag = v.into(); u32::from(t) });
        if x != Ok(t) { return bad(r.kind, t, "back to a tag", format!("{t:08x}"), format!("{x:x?}")); }
        None
    };
    let mut ts: Vec<u32> = known.keys().copied().collect();
    ts.sort();
    let mut more = vec![0, u32::MAX];
    for t in &ts {
        more.push(*t);
        for i in 0..32 { more.push(t ^ 1 << i); }
        for k in 0..4 { for c in 0x20..0x7Fu32 { more.push(t & !(0xFF << (8 * k)) | c << (8 * k)); } }
        more.push(t.swap_bytes());
        more.push(t.rotate_left(8));
        let b = t.to_be_bytes();
        more.push(u32::from_be_bytes([b[0].to_ascii_uppercase(), b[1].to_ascii_uppercase(), b[2].to_ascii_uppercase(), b[3].to_ascii_uppercase()]));
        more.push(u32::from_be_bytes([b[0].to_ascii_lowercase(), b[1].to_ascii_lowercase(), b[2].to_ascii_lowercase(), b[3].to_ascii_lowercase()]));
    }
    // Features and the like by number, tags of the other registries, and tags in the source.
    for p in [b"ss", b"cv"] { for i in 0..100u32 { more.push(u32::from_be_bytes([p[0], p[1], b'0' + (i / 10) as u8, b'0' + (i % 10) as u8])); } }
    for e in gen::registry_script() { more.push(u32::from_be_bytes(e.tag)); }
    for e in gen::registry_language() { more.push(u32::from_be_bytes(e.tag)); }
    for e in gen::registry_feature() { more.push(u32::from_be_bytes(e.tag)); }
    let src = o.args.get("tags").map(|t| t.split(',').filter_map(|x| u32::from_str_radix(x, 16).ok()).collect::<Vec<_>>()).unwrap_or_default();
    more.extend(src);
    more.sort();
    more.dedup();
    for t in &more {
        rep.evaluations += 1;
        rep.accepted += 1;
        rep.seen((r.kind, t));
        if let Some(f) = tag(*t) { rep.failure = Some(f); return rep; }
    }
    if all {
        let stop = AtomicBool::new(false);
        let fs: Vec<(u64, Option<J>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64).map(|th| { let (tag, stop) = (&tag, &stop); s.spawn(move || {
                let (a, b) = (th << 29, (th + 1) << 29);
                for t in a..b {
                    if t & 0xFFFF == 0 && stop.load(Ordering::Relaxed) { return (t - a, None); }
                    if let Some(f) = tag(t as u32) { stop.store(true, Ordering::Relaxed); return (t - a, Some(f)); }
                }
                (b - a, None)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (n, f) in fs { rep.evaluations += n; if f.is_some() { rep.failure = f; } }
    } else {
        let mut rng = Rng(o.seed ^ 0xC10);
        let end = Instant::now() + Duration::from_millis(o.ms / 3);
        while Instant::now() < end {
            for _ in 0..1000 {
                let t = rng.next() as u32;
                rep.evaluations += 1;
                if let Some(f) = tag(t) { rep.failure = Some(f); return rep; }
            }
        }
    }
    rep
}

pub fn replay(spec: &Spec, o: &Opts, j: &J, rep: &mut Report) {
    let name = j["type"].as_str().unwrap();
    if let Some(w) = j["flags"].as_u64() {
        let f = gen::FLAGS.iter().find(|f| f.name == name).unwrap();
        let r = gen::READERS.iter().find(|r| r.name == name);
        rep.evaluations += 1;
        if let Some(b) = flag(f, r, w as u16) { rep.failure = Some(json!({"what": b.0, "expected": b.1, "got": b.2})); }
    } else if let Some(t) = j["tag"].as_str() {
        let mut args = o.args.clone();
        args.insert("tags".into(), t.into());
        let o = Opts { seed: o.seed, ms: 100, names: vec!["C10".into()], aspect: o.aspect.clone(), literals: vec![], fixtures: String::new(), args };
        *rep = registries(&o);
    } else {
        let m = Made { data: unhex(j["data"].as_str().unwrap()), start: j["start"].as_i64().unwrap(), params: vec![], places: vec![] };
        let keys = keys();
        for s in 0..20 {
            if let Some(w) = one(spec, name, &m, &keys, &mut Rng(s), rep) { rep.failure = Some(json!({"what": w.0, "expected": w.1, "got": w.2})); break; }
        }
    }
    let _ = judge;
}
