//! The format grammar: the oracle that decodes bytes by it, and the generator of bytes.
use crate::rng::Rng;
use crate::val::{none, some, Val};
use serde_json::Value as J;
use std::collections::{HashMap, HashSet};

pub struct Field { pub kind: String, pub name: String, pub ty: String, pub args: Vec<J>, pub cond: J, pub count: J, pub off: J, pub value: i128, pub default: i128 }
pub struct Struct {
    pub kind: String, pub name: String, pub owner: String, pub params: Vec<(String, String)>, pub generic: bool, pub framed: bool,
    pub fields: Vec<Field>, pub invalid: u64, pub peek: (u64, i64), pub variants: Vec<(u64, u64, String, String)>,
}
pub struct Spec { pub types: HashMap<String, Struct> }

fn s(v: &J) -> String { v.as_str().unwrap_or("").to_string() }

impl Spec {
    pub fn load(text: &str) -> Spec {
        let j: J = serde_json::from_str(text).unwrap();
        let mut types = HashMap::new();
        for e in j.as_array().unwrap() {
            let mut q = Struct {
                kind: s(&e["kind"]), name: s(&e["name"]), owner: s(&e["owner"]), generic: !e["generic"].is_null(), framed: e["framed"].as_bool().unwrap(),
                params: e["params"].as_array().unwrap().iter().map(|p| (s(&p[0]), s(&p[1]))).collect(),
                fields: vec![], invalid: e["invalid"].as_u64().unwrap_or(0), peek: (0, 0), variants: vec![],
            };
            if let Some(p) = e["peek"].as_array() { q.peek = (if p[0] == "u16" { 2 } else { 4 }, p[1].as_i64().unwrap()); }
            for f in e["fields"].as_array().unwrap_or(&vec![]) {
                q.fields.push(Field {
                    kind: s(&f["kind"]), name: s(&f["name"]), ty: s(&f["type"]), args: f["args"].as_array().cloned().unwrap_or_default(),
                    cond: f["cond"].clone(), count: f["count"].clone(), off: f["off"].clone(),
                    value: f["value"].as_i64().unwrap_or(0) as i128, default: f["default"].as_i64().unwrap_or(0) as i128,
                });
            }
            for v in e["variants"].as_array().unwrap_or(&vec![]) {
                q.variants.push((v[0][0].as_u64().unwrap(), v[0][1].as_u64().unwrap(), s(&v[1]), s(&v[2])));
            }
            types.insert(format!("{}::{}", s(&e["module"]), s(&e["name"])), q);
        }
        Spec { types }
    }
    /// Splits A<B> into the structure and what U stands for.
    pub fn get(&self, t: &str) -> Option<(&Struct, Option<String>)> {
        match t.find('<') {
            Some(i) => Some((self.types.get(&t[..i])?, Some(t[i + 1..t.len() - 1].to_string()))),
            None => Some((self.types.get(t)?, None)),
        }
    }
    pub fn const_size(&self, t: &str) -> Option<i64> {
        if let Some(n) = prim(t) { return Some(n as i64); }
        let (q, _) = self.get(t)?;
        if q.kind == "flags" { return Some(2); }
        if q.kind != "table" || !q.params.is_empty() { return None; }
        let mut n = 0;
        for f in &q.fields {
            match &f.kind[..] { "req" => {} "i" | "c" if f.args.is_empty() => n += self.const_size(&f.ty)?, _ => return None }
        }
        Some(n)
    }
    fn default(&self, t: &str) -> Val {
        if t.starts_with("Vec<") { return Val::List(vec![]); }
        if prim(t).is_some() { return if t == "q32" { Val::Tuple("q32".into(), vec![Val::Int(0)]) } else if t == "NameID" { name(0) } else { Val::Int(0) }; }
        let (q, u) = self.get(t).unwrap();
        match &q.kind[..] {
            "flags" => Val::Tuple(q.name.clone(), vec![Val::Int(0)]),
            "table" => Val::structure(&q.name, q.fields.iter().filter(|f| f.kind != "req").map(|f| (f.name.clone(), match &f.kind[..] {
                "n" | "l" | "lo" => Val::List(vec![]), "o" | "ato" | "bytes0" => none(), _ => self.default(&subst(&f.ty, &u)) })).collect()),
            _ => Val::Tuple(q.variants[0].2.clone(), vec![self.default(&q.variants[0].3)]),
        }
    }
}

pub fn prim(t: &str) -> Option<u64> {
    Some(match t { "u8" => 1, "u16" | "i16" | "NameID" => 2, "u32" | "i32" | "q32" | "Tag" => 4, _ => return None })
}
pub fn subst(t: &str, u: &Option<String>) -> String {
    match u { Some(u) => if t == "U" { u.clone() } else { t.replace("<U>", &format!("<{u}>")) }, None => t.to_string() }
}
fn name(x: u64) -> Val {
    const N: [&str; 26] = ["CopyrightNotice", "FontFamilyName", "FontSubfamilyName", "UniqueFontID", "FullFontName", "VersionString", "PostScriptFontName",
        "Trademark", "ManufacturerName", "DesignerName", "Description", "VendorURL", "DesignerURL", "LicenseDescription", "LicenseURL", "",
        "TypographicFamilyName", "TypographicSubfamilyName", "CompatibleFullFontName", "SampleText", "PostScriptCIDFindFontName",
        "WWSFamilyName", "WWSSubfamilyName", "LightBackgroundPalette", "DarkBackgroundPalette", "PostScriptVariationNamePrefix"];
    if x < 26 && x != 15 { Val::Tuple(N[x as usize].into(), vec![]) } else { Val::Tuple("Other".into(), vec![Val::Int(x as i128)]) }
}

#[derive(Clone)]
enum Slot { Word(i64, u64, bool), Value(i128), Array(i64, i64, String), Maybe(Box<Slot>, bool, i128) }
#[derive(Clone)]
struct Env { p: i64, here: i64, slots: HashMap<String, Slot> }

#[derive(Debug, PartialEq)]
pub enum Stop { Reject, Budget }
type R<T> = Result<T, Stop>;

/// Words that expressions refer to.  The role is what an undetermined word is for.
trait Words { fn word(&mut self, spec: &Spec, p: i64, w: u64, role: &mut Role) -> R<u64>; }
#[derive(Clone, Debug)]
pub enum Role { Count(i64), Offset { zero: f64, here: i64, sizes: Option<i64>, strict: bool }, Stride(i64), Cond(Vec<i128>), Type(u64), Fixed(u64), Plain }

fn truth(b: bool) -> i128 { b as i128 }

fn eval(spec: &Spec, w: &mut dyn Words, env: &Env, e: &J, k: i128, role: &mut Role) -> R<i128> {
    if let Some(n) = e.as_i64() { return Ok(n as i128); }
    let a = e.as_array().unwrap();
    let op = a[0].as_str().unwrap();
    macro_rules! x { ($i:expr) => { eval(spec, w, env, &a[$i], k, role)? } }
    Ok(match op {
        "var" => match a[1].as_str().unwrap() {
            "k" => k,
            "here" => env.here as i128,
            n => slot(spec, w, &env.slots[n], role)?,
        },
        "idx" => {
            let i = x!(2);
            match &env.slots[a[1].as_str().unwrap()] { Slot::Array(p, s, t) => signed(t, w.word(spec, p + s * i as i64, prim(t).unwrap(), role)?), _ => unreachable!() }
        }
        "idxf" => {
            let i = x!(2);
            match &env.slots[a[1].as_str().unwrap()] {
                Slot::Array(p, s, t) => {
                    let mut p = p + s * i as i64;
                    for f in &spec.types[t].fields {
                        if f.name == a[3].as_str().unwrap() { return Ok(signed(&f.ty, w.word(spec, p, prim(&f.ty).unwrap(), role)?)); }
                        p += spec.const_size(&f.ty).unwrap();
                    }
                    unreachable!()
                }
                _ => unreachable!(),
            }
        }
        "+" => x!(1) + x!(2),
        "-" => x!(1) - x!(2),
        "*" => {
            let is_k = |j: &J| j.as_array().is_some_and(|a| a[0] == "var" && a[1] == "k") ;
            if is_k(&a[1]) {
                // The distance between elements.
                let size = match role { Role::Offset { sizes, .. } => sizes.unwrap_or(8), _ => 8 };
                k * eval(spec, w, env, &a[2], k, &mut Role::Stride(size))?
            } else { x!(1) * x!(2) }
        }
        "/" => x!(1).div_euclid(x!(2)),
        "%" => x!(1).rem_euclid(x!(2)),
        "==" => truth(x!(1) == x!(2)),
        "!=" => truth(x!(1) != x!(2)),
        "<" => truth(x!(1) < x!(2)),
        "<=" => truth(x!(1) <= x!(2)),
        ">" => truth(x!(1) > x!(2)),
        ">=" => truth(x!(1) >= x!(2)),
        "and" => { for i in 1..a.len() { if x!(i) == 0 { return Ok(0); } } 1 }
        "or" => { for i in 1..a.len() { if x!(i) != 0 { return Ok(1); } } 0 }
        "if" => {
            let c = eval(spec, w, env, &a[1], k, &mut Role::Cond(vec![]))?;
            if c != 0 { x!(2) } else { x!(3) }
        }
        "u16" => { let p = env.p + x!(1) as i64; w.word(spec, p, 2, role)? as i128 }
        "u32" => { let p = env.p + x!(1) as i64; w.word(spec, p, 4, role)? as i128 }
        "u16s" => { let p = env.p + x!(1) as i64 + 2 * x!(2) as i64; w.word(spec, p, 2, role)? as i128 }
        "has" => truth(x!(1) & x!(2) != 0),
        "pow2" => 1i128 << x!(1).min(100),
        "forall" => {
            let n = x!(1);
            for k in 0..n { if eval(spec, w, env, &a[2], k, role)? == 0 { return Ok(0); } }
            1
        }
        o => unreachable!("{o}"),
    })
}
fn slot(spec: &Spec, w: &mut dyn Words, s: &Slot, role: &mut Role) -> R<i128> {
    Ok(match s {
        Slot::Word(p, n, sg) => { let v = w.word(spec, *p, *n, role)?; if *sg { v as u16 as i16 as i128 } else { v as i128 } }
        Slot::Value(v) => *v,
        Slot::Maybe(s, c, d) => if *c { slot(spec, w, s, role)? } else { *d },
        Slot::Array(..) => unreachable!(),
    })
}
fn signed(t: &str, v: u64) -> i128 { if t == "i16" { v as u16 as i16 as i128 } else { v as i128 } }

// ------------------------------------------------------------------ the oracle
pub struct Oracle<'a> { pub spec: &'a Spec, pub data: &'a [u8], pub budget: i64, pub visited: HashMap<String, u64>, pub starts: HashSet<i64> }
struct Data<'a>(&'a [u8]);
impl Words for Data<'_> {
    fn word(&mut self, _: &Spec, p: i64, w: u64, _: &mut Role) -> R<u64> { get(self.0, p, w) }
}
fn get(d: &[u8], p: i64, w: u64) -> R<u64> {
    if p < 0 || p as u64 + w > d.len() as u64 { return Err(Stop::Reject); }
    Ok(d[p as usize..p as usize + w as usize].iter().fold(0, |a, b| a << 8 | *b as u64))
}

impl<'a> Oracle<'a> {
    pub fn new(spec: &'a Spec, data: &'a [u8]) -> Self { Oracle { spec, data, budget: 450_000, visited: HashMap::new(), starts: HashSet::new() } }
    fn eval(&mut self, env: &Env, e: &J, k: i128) -> R<i128> { eval(self.spec, &mut Data(self.data), env, e, k, &mut Role::Plain) }
    /// The value at a position and where the next one follows (if specified).
    pub fn decode(&mut self, t: &str, p: i64, params: &[i128]) -> R<(Val, i64)> {
        self.budget -= 1;
        if self.budget < 0 { return Err(Stop::Budget); }
        self.starts.insert(p);
        if let Some(n) = prim(t) {
            let v = get(self.data, p, n)?;
            return Ok((match t {
                "i16" => Val::Int(v as u16 as i16 as i128),
                "i32" => Val::Int(v as u32 as i32 as i128),
                "q32" => Val::Tuple("q32".into(), vec![Val::Int(v as u32 as i32 as i128)]),
                "NameID" => name(v),
                _ => Val::Int(v as i128),
            }, p + n as i64));
        }
        if let Some(e) = t.strip_prefix("Vec<") {
            let e = &e[..e.len() - 1];
            return self.sequence(e, p, params[0], &[]);
        }
        let spec = self.spec;
        let (q, u) = spec.get(t).unwrap_or_else(|| panic!("{t}"));
        *self.visited.entry(t.to_string()).or_default() += 1;
        match &q.kind[..] {
            "flags" => {
                let v = get(self.data, p, 2)?;
                if v & q.invalid != 0 { return Err(Stop::Reject); }
                return Ok((Val::Tuple(q.name.clone(), vec![Val::Int(v as i128)]), p + 2));
            }
            "choice" | "select" => {
                let v = if q.kind == "choice" { get(self.data, p + q.peek.1, q.peek.0)? } else { params[0] as u64 };
                for (a, b, n, t) in &q.variants {
                    if *a <= v && v <= *b {
                        let (x, e) = self.decode(t, p, &[])?;
                        return Ok((Val::Tuple(n.clone(), vec![x]), e));
                    }
                }
                return Err(Stop::Reject);
            }
            _ => {}
        }
        let mut env = Env { p, here: p, slots: HashMap::new() };
        for ((n, _), v) in q.params.iter().zip(params) {
            env.slots.insert(n.clone(), Slot::Value(*v));
            if n == "position" { env.here = *v as i64; }
        }
        let mut cur = p;
        let mut out = vec![];
        for f in &q.fields {
            let ty = subst(&f.ty, &u);
            let v = match &f.kind[..] {
                "req" => { if self.eval(&env, &f.cond, 0)? == 0 { return Err(Stop::Reject); } continue; }
                "i" | "c" | "o" | "d" => {
                    let c = f.kind == "i" || f.kind == "c" || self.eval(&env, &f.cond, 0)? != 0;
                    let args = if c { self.args(&env, &f.args, 0)? } else { vec![] };
                    let at = cur;
                    let x = if c { let (x, e) = self.decode(&ty, cur, &args)?; cur = e; Some(x) } else { None };
                    if let Some(w) = width(spec, &ty) {
                        let s = Slot::Word(at, w, ty == "i16");
                        env.slots.insert(f.name.clone(), match &f.kind[..] { "i" | "c" => s, _ => Slot::Maybe(Box::new(s), c, f.default) });
                    }
                    match &f.kind[..] {
                        "c" => { let x = x.unwrap(); if x != Val::Int(f.value) { return Err(Stop::Reject); } x }
                        "i" => x.unwrap(),
                        "o" => x.map(some).unwrap_or_else(none),
                        _ => x.unwrap_or_else(|| if ty == "NameID" { name(f.default as u64) } else { Val::Int(f.default) }),
                    }
                }
                "n" => {
                    let n = self.eval(&env, &f.count, 0)?;
                    let args = self.args(&env, &f.args, 0)?;
                    if let Some(z) = spec.const_size(&ty) { env.slots.insert(f.name.clone(), Slot::Array(cur, z, ty.clone())); }
                    let (x, e) = self.sequence(&ty, cur, n, &args)?;
                    cur = e;
                    x
                }
                "at" | "ato" | "atd" => {
                    let o = self.eval(&env, &f.off, 0)?;
                    if o > 0 || f.kind == "at" {
                        let args = self.args(&env, &f.args, 0)?;
                        let x = self.decode(&ty, env.here + o as i64, &args)?.0;
                        if f.kind == "ato" { some(x) } else { x }
                    } else if f.kind == "ato" { none() } else { spec.default(&ty) }
                }
                "bytes0" => { let o = self.eval(&env, &f.off, 0)?; self.starts.insert(env.here + o as i64); if o > 0 { some(Val::List(vec![])) } else { none() } },
                "l" | "lo" => {
                    let n = self.eval(&env, &f.count, 0)?;
                    let mut v = vec![];
                    for k in 0..n {
                        let o = self.eval(&env, &f.off, k)?;
                        if f.kind == "lo" && o == 0 { v.push(none()); continue; }
                        let args = self.args(&env, &f.args, k)?;
                        let x = self.decode(&ty, env.here + o as i64, &args)?.0;
                        v.push(if f.kind == "lo" { some(x) } else { x });
                    }
                    Val::List(v)
                }
                k => unreachable!("{k}"),
            };
            out.push((f.name.clone(), v));
        }
        Ok((Val::structure(&q.name, out), cur))
    }
    fn sequence(&mut self, t: &str, mut p: i64, n: i128, args: &[i128]) -> R<(Val, i64)> {
        if n < 0 { return Err(Stop::Reject); }
        if let Some(z) = prim(t) { if n > 0 && (p < 0 || p as i128 + n * z as i128 > self.data.len() as i128) { return Err(Stop::Reject); } }
        let mut v = vec![];
        for _ in 0..n { let (x, e) = self.decode(t, p, args)?; v.push(x); p = e; }
        Ok((Val::List(v), p))
    }
    fn args(&mut self, env: &Env, a: &[J], k: i128) -> R<Vec<i128>> { a.iter().map(|e| self.eval(env, e, k)).collect() }
}
fn width(spec: &Spec, t: &str) -> Option<u64> { prim(t).or_else(|| spec.get(t).and_then(|q| if q.0.kind == "flags" { Some(2) } else { None })) }

// --------------------------------------------------------------- the generator
pub struct Made { pub data: Vec<u8>, pub start: i64, pub params: Vec<i128>, pub places: Vec<(i64, u64)> }

struct Job<'a> { env: Env, f: &'a Field, ty: String, k: i128 }
pub struct Gen<'a> {
    spec: &'a Spec, rng: &'a mut Rng, literals: &'a [u64],
    data: Vec<u8>, set: Vec<bool>, places: Vec<(i64, u64)>, starts: Vec<i64>, jobs: std::collections::VecDeque<Job<'a>>,
    cur: i64, limit: i64, big: bool, plain: bool, loose: bool, work: u64, most: u64, share: bool,
    laid: HashMap<(String, Vec<i128>), Vec<i64>>,
}
const TAGS: [&[u8; 4]; 12] = [b"DFLT", b"latn", b"cyrl", b"kern", b"liga", b"dflt", b"DEU ", b"aaaa", b"zzzz", b"wght", b"ss01", b"TRK "];

impl Words for Gen<'_> {
    fn word(&mut self, spec: &Spec, p: i64, w: u64, role: &mut Role) -> R<u64> {
        if p < 0 || p > 400_000 { return Err(Stop::Reject); }
        self.grow(p + w as i64);
        if (0..w).all(|i| !self.set[p as usize + i as usize]) {
            let v = self.choose(spec, p, w, role);
            self.put(p, w, v);
        }
        for i in 0..w { if !self.set[p as usize + i as usize] { let x = self.rng.byte(); self.data[p as usize + i as usize] = x; self.set[p as usize + i as usize] = true; } }
        get(&self.data, p, w)
    }
}

impl<'a> Gen<'a> {
    pub fn make(spec: &'a Spec, rng: &'a mut Rng, literals: &'a [u64], t: &str, large: bool) -> Option<Made> {
        let start = *rng.pick(&[0i64, 0, 0, 2, 5, 16]);
        let big = large && rng.chance(0.25);
        let plain = rng.chance(0.5);
        // What is referred to may be anything that there is.
        let loose = !big && (!plain || rng.chance(0.5));
        let mut g = Gen { spec, rng, literals, data: vec![], set: vec![], places: vec![], starts: vec![], jobs: Default::default(), cur: start, limit: 80_000, big, plain, loose, work: 0, most: if large { 400_000 } else { 8_000 }, share: false, laid: HashMap::new() };
        let (q, _) = spec.get(t).unwrap_or_else(|| panic!("{t}"));
        let mut params = vec![];
        for (n, pt) in &q.params {
            params.push(match &n[..] {
                "position" => if g.rng.chance(0.6) { start as i128 } else { g.rng.below(start as u64 + 1) as i128 },
                "type" => if g.plain || g.rng.chance(0.95) { let v = g.rng.pick(&q.variants); v.0 as i128 } else { g.rng.below(70000) as u16 as i128 },
                n if n.contains("flags") => { let f = spec.types.get(&format!("{}::{pt}", "tables::glyph_positioning::element")); let inv = f.map(|f| f.invalid).unwrap_or(0); (g.rng.flags() & !inv) as i128 }
                n if n.contains("size") => g.rng.pick(&[4i128, 6, 8, 10, 12, 14, 16, 18, 0, 5, 7, 65535]).to_owned(),
                _ => g.count(2) as i128,
            });
        }
        g.cur = start;
        g.structure(t, &params).ok()?;
        let mut n = 0;
        while let Some(job) = g.jobs.pop_front() {
            n += 1;
            if g.data.len() as i64 > 300_000 { break; }
            g.share = n > 150;
            g.job(job).ok();
        }
        for i in 0..g.data.len() { if !g.set[i] { g.data[i] = if g.rng.chance(0.2) { 0 } else { g.rng.byte() }; } }
        if g.rng.chance(0.2) { for _ in 0..g.rng.below(9) { let b = g.rng.byte(); g.data.push(b); } }
        Some(Made { data: g.data, start, params, places: g.places })
    }
    fn grow(&mut self, n: i64) { if (self.data.len() as i64) < n { self.data.resize(n as usize, 0); self.set.resize(n as usize, false); } }
    fn put(&mut self, p: i64, w: u64, v: u64) {
        self.grow(p + w as i64);
        for i in 0..w { self.data[(p + i as i64) as usize] = (v >> (8 * (w - 1 - i))) as u8; self.set[(p + i as i64) as usize] = true; }
        self.places.push((p, w));
    }
    fn unset(&self, p: i64, w: u64) -> bool { (0..w).all(|i| self.set.get((p + i as i64) as usize).map(|b| !*b).unwrap_or(true)) }
    fn count(&mut self, size: i64) -> u64 {
        // What has grown enough comes to an end.
        if self.work > 1_500 { return *self.rng.pick(&[0u64, 1, 1, 2]); }
        if self.big && self.data.len() < 3000 && self.rng.chance(0.3) {
            let m = (40_000 / size.max(1)) as u64;
            self.big = self.rng.chance(0.3);
            return if self.rng.chance(0.5) { *self.rng.pick(&[255u64, 256, 256, 257, 257, 300, 300, 600, 1000]) }
                else if self.rng.chance(0.4) { *self.rng.pick(&[0x1000u64, 0x1001, 0x2001, 0x4002, 0x7FFF, 0x8000, 0x8001, 0xFFFF]) } else { self.rng.below(m.max(2)) }.min((270_000 / size.max(1)) as u64);
        }
        if !self.plain && self.rng.chance(0.03) {
            let most = if self.most > 10_000 { 20_000 } else { 2_000 };
            if let Some(v) = self.literal() { if v < 70_000 && v as i64 * size.max(1) < most { return v; } }
        }
        *self.rng.pick(&[0u64, 1, 1, 2, 2, 2, 3, 3, 4, 5, 8])
    }
    fn literal(&mut self) -> Option<u64> { if self.literals.is_empty() { None } else { let v = *self.rng.pick(self.literals); Some(v.wrapping_add(self.rng.below(3)).wrapping_sub(1)) } }
    fn choose(&mut self, _: &Spec, p: i64, w: u64, role: &mut Role) -> u64 {
        let mask = if w >= 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
        let v = match role {
            Role::Count(size) => { let s = *size; self.count(s) }
            Role::Offset { zero, here, strict, .. } => {
                let (z, here, strict) = (*zero, *here, *strict);
                if self.rng.chance(z) { 0 } else if self.loose && !strict && !self.starts.is_empty() && self.rng.chance(0.06) {
                    let t = *self.rng.pick(&self.starts);
                    (t - here).max(0) as u64
                } else if !self.plain && self.rng.chance(0.02) { self.literal().unwrap_or(0) }
                else {
                    let end = (self.data.len() as i64).max(p + w as i64) + if self.rng.chance(0.15) { self.rng.below(5) as i64 } else { 0 };
                    let o = (end - here).max(0) as u64;
                    if o > mask { let n = self.starts.len(); if n > 0 { (self.starts[self.rng.below(n as u64) as usize] - here).max(0) as u64 } else { 0 } } else { o }
                }
            }
            Role::Stride(z) => {
                let z = *z as u64;
                if !self.plain && self.rng.chance(0.04) { *self.rng.pick(&[0x4000u64, 0x5556, 0x7FFF, 0x8000, 0x8001, 0xFFFF]) }
                else { *self.rng.pick(&[z, z, z, z + 1, z + 4, z.saturating_sub(2), 0]) }
            }
            Role::Cond(_) if !self.plain && self.rng.chance(0.05) => {
                let (l, c) = (self.literal().unwrap_or(0), self.count(4));
                *self.rng.pick(&[l, c, c, 0xFFFF, 0xFFFE, 0x8000])
            }
            Role::Cond(c) => { if c.is_empty() { self.rng.below(4) } else { let b = *self.rng.pick(c); (b + *self.rng.pick(&[0i128, 0, 0, 1, -1])).max(0) as u64 } }
            Role::Type(n) => {
                let v = 1 + self.rng.below(*n);
                if self.rng.chance(0.95) { v }
                else if !self.plain && self.rng.chance(0.4) { self.literal().unwrap_or(0) }
                else if self.rng.chance(0.5) { self.rng.below(20) }
                else { v | *self.rng.pick(&[0x0100u64, 0x1000, 0x8000, 0xFF00]) }
            }
            Role::Fixed(v) => *v,
            Role::Plain => self.rng.next(),
        };
        v & mask
    }
    fn eval(&mut self, env: &Env, e: &J, k: i128, mut role: Role) -> R<i128> { let s = self.spec; eval(s, self, env, e, k, &mut role) }
    /// Makes a condition true most of the time by choosing words that are not determined yet.
    fn cond(&mut self, env: &Env, e: &J, insist: bool) -> R<bool> {
        let mut consts = vec![];
        constants(e, &mut consts);
        for try_ in 0..30 {
            let n = self.places.len();
            let role = if try_ < 20 && !consts.is_empty() { Role::Cond(consts.clone()) } else { Role::Cond(vec![]) };
            let v = self.eval(env, e, 0, role)? != 0;
            if v || !insist || (!self.plain && self.rng.chance(0.02)) { return Ok(v); }
            for (p, w) in self.places.split_off(n) { for i in p as usize..p as usize + w as usize { self.data[i] = 0; self.set[i] = false; } }
        }
        self.eval(env, e, 0, Role::Cond(consts)).map(|v| v != 0)
    }
    fn args(&mut self, env: &Env, f: &Field, ty: &str, k: i128) -> R<Vec<i128>> {
        let mut out = vec![];
        let spec = self.spec;
        for (j, e) in f.args.iter().enumerate() {
            let role = match spec.get(ty) {
                Some((q, _)) => {
                    let n = &q.params[j].0;
                    if n == "type" { Role::Type(q.variants.len() as u64) } else if n.contains("size") { let z = 4 * self.count(4) as i64; Role::Stride(z + *self.rng.pick(&[4, 6])) } else { Role::Count(2) }
                }
                None => Role::Count(spec.const_size(&ty[4..ty.len() - 1]).unwrap_or(4)),
            };
            out.push(self.eval(env, e, k, role)?);
        }
        Ok(out)
    }
    fn scalar(&mut self, t: &str, p: i64) {
        let w = prim(t).unwrap();
        self.grow(p + w as i64);
        if !self.unset(p, w) { return; }
        if t == "Tag" && self.rng.chance(0.9) { let v = u32::from_be_bytes(**self.rng.pick(&TAGS)); self.put(p, 4, v as u64); return; }
        self.places.push((p, w));      // decided later
    }
    /// Lays out a structure at the current position.
    fn structure(&mut self, t: &str, params: &[i128]) -> R<()> {
        self.work += 1;
        if self.cur > self.limit * 4 || self.work > self.most { return Err(Stop::Budget); }
        if let Some(w) = prim(t) { self.scalar(t, self.cur); self.cur += w as i64; return Ok(()); }
        if let Some(e) = t.strip_prefix("Vec<") {
            let e = &e[..e.len() - 1];
            for _ in 0..params[0] { self.structure(e, &[])?; }
            return Ok(());
        }
        let spec = self.spec;
        let (q, u) = spec.get(t).unwrap();
        let p = self.cur;
        self.starts.push(p);
        match &q.kind[..] {
            "flags" => {
                if self.unset(p, 2) {
                    let mut v = self.rng.flags();
                    if self.plain || self.rng.chance(0.97) { v &= !q.invalid; }
                    if !self.plain && self.rng.chance(0.05) { v = 0; }
                    self.put(p, 2, v & 0xFFFF);
                }
                self.cur = p + 2;
                return Ok(());
            }
            "choice" | "select" => {
                let v = if q.kind == "select" { params[0] as u64 } else {
                    let (w, o) = (q.peek.0, q.peek.1);
                    if self.unset(p + o, w) {
                        let r = self.rng.pick(&q.variants);
                        let mut v = r.0 + if r.1 > r.0 { self.rng.below(r.1 - r.0 + 1) } else { 0 };
                        if !self.plain && self.rng.chance(0.08) {
                            let l = self.literal().unwrap_or(0);
                            v = (if self.rng.chance(0.3) { l } else { v.wrapping_add(*self.rng.pick(&[1, 2, 3, u64::MAX, 0x8000, 0x100, 0x200, 0x1000])) }) & ((1 << (8 * w)) - 1);
                        }
                        self.put(p + o, w, v);
                    }
                    self.grow(p + o + w as i64);
                    get(&self.data, p + o, w)?
                };
                for (a, b, _, t) in &q.variants { if *a <= v && v <= *b { return self.structure(t, &[]); } }
                // What follows is there even if it is to be rejected.
                let (_, _, _, t) = self.rng.pick(&q.variants);
                return self.structure(t, &[]);
            }
            _ => {}
        }
        let mut env = Env { p, here: p, slots: HashMap::new() };
        for ((n, _), v) in q.params.iter().zip(params) {
            env.slots.insert(n.clone(), Slot::Value(*v));
            if n == "position" { env.here = *v as i64; }
        }
        let mut late = vec![];
        for f in &q.fields {
            let ty = subst(&f.ty, &u);
            match &f.kind[..] {
                "req" => { let done = self.places.len(); if self.cond(&env, &f.cond, true)? == false && done == usize::MAX { return Err(Stop::Reject); } }
                "i" | "c" | "o" | "d" => {
                    let at = self.cur;
                    if f.kind == "c" {
                        let w = prim(&ty).unwrap();
                        if self.unset(at, w) { let v = if self.plain || self.rng.chance(0.97) { f.value as u64 } else { self.rng.below(4) }; self.put(at, w, v); }
                    }
                    let c = f.kind == "i" || f.kind == "c" || self.cond(&env, &f.cond, false)?;
                    if c {
                        let args = self.args(&env, f, &ty, 0)?;
                        self.structure(&ty, &args)?;
                        self.grow(self.cur);
                    }
                    if let Some(w) = width(spec, &ty) {
                        let s = Slot::Word(at, w, ty == "i16");
                        env.slots.insert(f.name.clone(), match &f.kind[..] { "i" | "c" => s, _ => Slot::Maybe(Box::new(s), c, f.default) });
                    }
                }
                "n" => {
                    let z = spec.const_size(&ty);
                    let n = self.eval_count(&env, &f.count, z.unwrap_or(12))?;
                    let args = self.args(&env, f, &ty, 0)?;
                    if let Some(z) = z { env.slots.insert(f.name.clone(), Slot::Array(self.cur, z, ty.clone())); }
                    if n < 0 || n > 70_000 * 2 { self.grow(self.cur); continue; }
                    for _ in 0..n { self.structure(&ty, &args)?; }
                    self.grow(self.cur);
                }
                _ => late.push((f, ty)),
            }
        }
        self.grow(self.cur);
        let end = self.cur;
        for (f, ty) in late {
            match &f.kind[..] {
                "l" | "lo" => {
                    let n = self.eval_count(&env, &f.count, 2)?;
                    let own = if n > 64 { 8 } else { n.min(40) };
                    for k in 0..own { self.jobs.push_back(Job { env: env.clone(), f, ty: ty.clone(), k }); }
                    if n > own { self.jobs.push_back(Job { env: env.clone(), f, ty: ty.clone(), k: -n }); }
                }
                _ => self.jobs.push_back(Job { env: env.clone(), f, ty, k: 0 }),
            }
        }
        self.cur = end;
        Ok(())
    }
    fn eval_count(&mut self, env: &Env, e: &J, size: i64) -> R<i128> { self.eval(env, e, 0, Role::Count(size)) }
    fn job(&mut self, job: Job<'a>) -> R<()> {
        let Job { env, f, ty, k } = job;
        if k < 0 {
            // The rest of a long list shares what the beginning of the list refers to.
            let first: Vec<i128> = (0..4.min(-k)).map(|k| self.eval(&env, &f.off, k, Role::Plain)).collect::<R<_>>()?;
            for k in 4..-k {
                let role = Role::Fixed(if f.kind == "lo" && self.rng.chance(0.2) { 0 } else { first[self.rng.below(first.len() as u64) as usize] as u64 });
                self.eval(&env, &f.off, k, role)?;
            }
            return Ok(());
        }
        let zero = match &f.kind[..] { "ato" | "bytes0" => 0.3, "atd" | "lo" => 0.25, _ => if self.plain { 0.0 } else { 0.02 } };
        let strict = !f.off.as_array().is_some_and(|a| a[0] == "var" || a[0] == "idx" || a[0] == "idxf" || a[0] == "u16" || a[0] == "u32" || a[0] == "if");
        let sizes = self.spec.const_size(&ty);
        if (self.share || self.rng.chance(0.04)) && f.kind != "bytes0" {
            // What there is enough of is referred to again.
            let args = self.args(&env, f, &ty, k)?;
            if let Some(l) = self.laid.get(&(ty.clone(), args)) {
                let o = l[self.rng.below(l.len() as u64) as usize] - env.here;
                if (0..0x10000).contains(&o) {
                    let o = if f.kind != "at" && self.rng.chance(0.2) { 0 } else { o as u64 };
                    self.eval(&env, &f.off, k, Role::Fixed(o))?;
                    return Ok(());
                }
            }
        }
        let o = self.eval(&env, &f.off, k, Role::Offset { zero, here: env.here, sizes, strict })?;
        if f.kind == "bytes0" || (o == 0 && f.kind != "at" && f.kind != "l") { return Ok(()); }
        let args = self.args(&env, f, &ty, k)?;
        self.cur = env.here + o as i64;
        if self.cur > 70_000 + self.limit { return Ok(()); }
        let l = self.laid.entry((ty.clone(), args.clone())).or_default();
        if l.len() < 64 { l.push(self.cur); }
        self.structure(&ty, &args)
    }
}
fn constants(e: &J, out: &mut Vec<i128>) {
    if let Some(a) = e.as_array() {
        let skip = matches!(a[0].as_str(), Some("u16" | "u32" | "u16s" | "pow2"));
        for x in a { if let Some(n) = x.as_i64() { if !skip { out.push(n as i128); } } else { constants(x, out); } }
    }
}

/// Changes some bytes of a case.
pub fn mutate(rng: &mut Rng, literals: &[u64], m: &mut Made) {
    if rng.chance(0.1) && !m.places.is_empty() {
        // Several neighbours at their extremes at once.
        let first = if rng.chance(0.5) { 0 } else { rng.below(m.places.len() as u64) as usize };
        for &(p, w) in m.places[first..].iter().take(6) {
            if p as u64 + w > m.data.len() as u64 || !rng.chance(0.6) { continue; }
            let top = 1u64 << (8 * w - 1);
            let n = *rng.pick(&[0, 1, top - 1, top, 2 * top - 1, 2 * top - 1, 2 * top - 2]);
            for i in 0..w { m.data[(p as u64 + i) as usize] = (n >> (8 * (w - 1 - i))) as u8; }
        }
        return;
    }
    for _ in 0..1 + rng.below(2) {
        match rng.below(10) {
            0..=5 if !m.places.is_empty() => {
                let (p, w) = *rng.pick(&m.places);
                if p as u64 + w > m.data.len() as u64 { continue; }
                let mask = (1u64 << (8 * w)) - 1;
                let v = m.data[p as usize..(p as u64 + w) as usize].iter().fold(0u64, |a, b| a << 8 | *b as u64);
                let n = match rng.below(9) {
                    0 => 0, 1 => mask, 2 => v.wrapping_add(1), 3 => v.wrapping_sub(1), 4 => v ^ 1 << rng.below(8 * w), 5 => rng.next(),
                    6 => if literals.is_empty() { v.wrapping_add(2) } else { *rng.pick(literals) },
                    7 => rng.below(8), _ => v.wrapping_add(rng.below(7)).wrapping_sub(3),
                } & mask;
                for i in 0..w { m.data[(p as u64 + i) as usize] = (n >> (8 * (w - 1 - i))) as u8; }
            }
            6 | 7 => { let n = rng.below(m.data.len() as u64 + 1); m.data.truncate(n as usize); m.start = m.start.min(n as i64); }
            _ => if !m.data.is_empty() { let i = rng.below(m.data.len() as u64) as usize; m.data[i] = rng.byte(); }
        }
    }
}
