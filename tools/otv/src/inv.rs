//! Loop invariants, inferred from the shapes of loops.
//!
//! What is inferred here only guides the verifier: an invariant that does not hold is rejected, and one that is too
//! weak makes the verification of the function fail.  Neither can make a wrong function pass.
use crate::load::*;
use crate::norm::*;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inv {
    pub loops: usize,
    pub error: Option<String>,
    tape: Option<String>,
    fresh: usize,
    bits: HashMap<String, u64>,
    /// Invariants of the loops, in their order, if they are not to be inferred.
    pub given: Vec<(String, String)>,
}

/// What is pushed in an iteration.
#[derive(Clone, Debug)]
enum Value {
    Take(Option<String>, Option<String>),
    Some(Box<Value>),
    None,
    Pure(String),
    If(String, Box<Value>, Box<Value>),
    /// for m in 0..N push
    Many(String, String, Box<Value>),
}

#[derive(Clone, Debug)]
enum Effect {
    Push(String, Value),
    /// A flag that is set provided a condition.
    Flag(String, String),
    /// An optional index that is set provided a condition.
    Index(String, String),
    /// An escape provided a condition.
    Escape(String),
    /// A number that grows by the same amount in each iteration.
    Add(String, String),
}

type Env = HashMap<String, String>;

struct Scan {
    tape: Option<String>,
    env: Env,
    jump: Option<String>,
    /// Whether the tape is used by what does not escape.
    moved: bool,
    takes: usize,
    effects: Vec<Effect>,
    /// The index, as it is called in specifications.
    k: String,
    i: String,
    bits: HashMap<String, u64>,
    sums: HashMap<String, String>,
}

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
fn unhex(s: &str) -> String { String::from_utf8((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap() }

impl Inv {
    pub fn new(_: &Crate, _: &Fun, tape: Option<String>, bits: HashMap<String, u64>) -> Self { Inv { loops: 0, error: None, tape, fresh: 0, bits, given: vec![] } }
    pub fn run(&mut self, b: &mut Block) {
        Tidy.visit_block_mut(b);
        if self.tape.is_some() { Hoist { fresh: 0, tape: self.tape.clone().unwrap() }.visit_block_mut(b); }
        let mut c = Count(0);
        c.visit_block_mut(b);
        if c.0 > 2 && self.tape.is_some() { let mut h = Hints { tape: self.tape.clone().unwrap(), bits: self.bits.clone(), fresh: 0, read: HashMap::new() }; h.visit_block_mut(b); }
        self.visit_block_mut(b);
    }

    fn annotate(&mut self, f: &mut ExprForLoop) -> std::result::Result<Vec<Stmt>, String> {
        self.loops += 1;
        if !self.given.is_empty() {
            // The invariant, and what is to be noticed in each iteration, are given.
            let (text, hint) = self.given.remove(0);
            let i = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), _ => return Err("pattern".into()) };
            f.body.stmts.insert(0, parse_str_stmt(&format!("__inv!(\"{}\");", hex(&text.replace("%i", &i)))));
            f.body.stmts.insert(1, parse_str_stmt(&format!("__ghost!(\"{}\");", hex(&hint.replace("%i", &i)))));
            f.attrs.push(parse_quote_attr());
            return Ok(vec![]);
        }
        self.fresh += 1;
        let n = self.fresh;
        let i = match &*f.pat { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i.ident.to_string(), Pat::Wild(_) => { let s = format!("i__w{n}"); f.pat = Box::new(Pat::parse_single_str(&s)); s } p => return Err(format!("pattern {}", ts(p))) };
        let r = match unparen(&f.expr) { Expr::Range(r) => r.clone(), e => return Err(format!("loop over {}", ts(e))) };
        if !matches!(r.limits, RangeLimits::HalfOpen(_)) { return Err("closed range".into()); }
        let lo = r.start.as_ref().map(|e| ts(e)).unwrap_or_default();
        if !matches!(lo.trim(), "0" | "0usize" | "0u16" | "0u32" | "0u64") { return Err(format!("range from {lo}")); }
        let mut s = Scan { tape: self.tape.clone(), env: Env::new(), jump: None, moved: false, takes: 0, effects: vec![], k: "k".into(), i: i.clone(), bits: self.bits.clone(), sums: HashMap::new() };
        s.env.insert(i.clone(), "k".into());
        let mut declared: HashSet<String> = HashSet::new();
        for x in &f.body.stmts {
            if let Stmt::Local(l) = x { if let Pat::Ident(p) = &l.pat { declared.insert(p.ident.to_string()); } }
            if let Stmt::Expr(Expr::Binary(b), _) = x {
                if let (BinOp::AddAssign(_), Some(v)) = (&b.op, simple_path(&b.left)) {
                    if !declared.contains(&v) && !s.sums.contains_key(&v) {
                        let e = s.int(&b.right)?;
                        if mentions(&e, "k") { return Err("varying steps".into()); }
                        s.env.insert(v.clone(), format!("({v}__s{n} + k * {e})"));
                        s.sums.insert(v, e);
                    }
                }
            }
        }
        s.block(&f.body, &[])?;
        let uses_tape = self.tape.as_ref().is_some_and(|t| mentions(&ts(&f.body), t));
        let t = self.tape.clone().unwrap_or_default();
        let mut inv: Vec<String> = vec![];
        let mut before = String::new();
        if uses_tape {
            if s.moved {
                inv.push(format!("wf(*{t}) && {t}.data() == old({t}).data() && {t}.fault() == old({t}).fault()"));
            } else {
                before += &format!("let ghost t__{n} = *{t};");
                inv.push(format!("*{t} == t__{n}"));
            }
        }
        let ki = |x: &str| replace_word(x, "k", "k");
        let mut pushed: HashSet<String> = HashSet::new();
        let mut steps = String::new();
        for e in &s.effects {
            match e {
                Effect::Push(v, x) => {
                    if !pushed.insert(v.clone()) { return Err(format!("several pushes to {v}")); }
                    inv.push(format!("{v}@.len() == {i} as int"));
                    let seq = x.sequential();
                    if seq {
                        if s.takes != 1 || s.jump.is_some() { return Err("several reads in a row".into()); }
                        let p = match x { Value::Take(_, p) => p.clone(), _ => return Err("sequential reads of optional values".into()) };
                        let size = match &p { Some(p) => format!("wszof({v}@, {p})"), None => format!("szof({v}@)") };
                        if p.as_ref().is_some_and(|p| mentions(p, "k")) { return Err("sequential reads with varying parameters".into()); }
                        before += &format!("let ghost p__{n} = {t}.pos();");
                        inv.push(format!("{t}.pos() == stride(p__{n}, {i} as int, {size})"));
                        let at = format!("stride(p__{n}, k, {size})");
                        let x = Value::Take(Some(at), p);
                        inv.push(format!("forall|k: int| 0 <= k < {i} && #[trigger] ix(k) ==> {}", x.fact(&format!("{v}@[k]"), &t)));
                    } else {
                        inv.push(format!("forall|k: int| 0 <= k < {i} && #[trigger] ix(k) ==> {}", x.fact(&format!("{v}@[k]"), &t)));
                    }
                }
                Effect::Flag(v, c) => {
                    inv.push(format!("!{v} ==> (forall|k: int| 0 <= k < {i} && #[trigger] ix(k) ==> !({}))", ki(c)));
                    inv.push(format!("{v} ==> (exists|k: int| 0 <= k < {i} && #[trigger] ix(k) && {})", ki(c)));
                }
                Effect::Index(v, c) => {
                    let c2 = replace_word(c, "k", &format!("({v}->Some_0 as int)"));
                    inv.push(format!("{v} is None ==> (forall|k: int| 0 <= k < {i} && #[trigger] ix(k) ==> !({c}))"));
                    inv.push(format!("{v} is Some ==> 0 <= {v}->Some_0 < {i} && ix({v}->Some_0 as int) && {c2}"));
                    inv.push(format!("{v} is Some ==> (forall|k: int| 0 <= k < {v}->Some_0 && #[trigger] ix(k) ==> !({c}))"));
                }
                Effect::Add(v, e) => {
                    before += &format!("let ghost {v}__s{n} = {v} as int;");
                    inv.push(format!("{v} == {v}__s{n} + ({i} as int) * {e}"));
                    steps += &format!("proof {{ mul_step({i} as int, {e}); }}");
                }
                Effect::Escape(c) => inv.push(format!("forall|k: int| 0 <= k < {i} && #[trigger] ix(k) ==> !({c})")),
            }
        }
        let text = inv.join(",\n");
        let marker: Stmt = parse_str_stmt(&format!("__inv!(\"{}\");", hex(&text)));
        f.body.stmts.insert(0, marker);
        f.body.stmts.insert(1, parse_str_stmt(&format!("__ghost!(\"{}\");", hex(&format!("assert(ix({i} as int)); {steps}")))));
        f.attrs.push(parse_quote_attr());
        let mut out = vec![];
        if !before.is_empty() { out.push(parse_str_stmt(&format!("__ghost!(\"{}\");", hex(&before)))); }
        Ok(out)
    }
}

fn parse_quote_attr() -> Attribute {
    let s: ItemStruct = parse_str("#[verifier::loop_isolation(false)] struct X;").unwrap();
    s.attrs[0].clone()
}

trait ParsePat { fn parse_single_str(s: &str) -> Pat; }
impl ParsePat for Pat {
    fn parse_single_str(s: &str) -> Pat { match parse_str_stmt(&format!("let {s} = 0;")) { Stmt::Local(l) => l.pat, _ => unreachable!() } }
}

/// Replaces an identifier in a text.
pub fn replace_word(text: &str, from: &str, to: &str) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphanumeric() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            let field = out.trim_end().ends_with('.') || out.trim_end().ends_with("->");
            if w == from && !field { out += to; } else { out += &w; }
        } else { out.push(b[i]); i += 1; }
    }
    out
}

impl Value {
    fn sequential(&self) -> bool {
        match self {
            Value::Take(p, _) => p.is_none(),
            Value::Some(x) | Value::Many(_, _, x) => x.sequential(),
            Value::If(_, a, b) => a.sequential() || b.sequential(),
            _ => false,
        }
    }
    /// What holds of a value.
    fn fact(&self, v: &str, t: &str) -> String {
        match self {
            Value::Take(Some(p), None) => format!("accm({t}.data(), {p}, {v})"),
            Value::Take(Some(p), Some(a)) => format!("waccm({t}.data(), {p}, {a}, {v})"),
            Value::Take(None, _) => "false".into(),
            Value::Some(x) => format!("({v} is Some && {})", x.fact(&format!("some_of({v})"), t)),
            Value::None => format!("({v} is None)"),
            Value::Pure(x) => match x.trim().strip_prefix('&') {
                Some(y) => format!("(pointee({v}) == {y})"),
                None => format!("({v} == {x})"),
            },
            Value::If(c, a, b) => format!("(if {c} {{ {} }} else {{ {} }})", a.fact(v, t), b.fact(v, t)),
            Value::Many(m, n, x) => format!("(vlen({v}) == {n} && (forall|{m}: int| 0 <= {m} < {n} && #[trigger] ix({m}) ==> {}))", x.fact(&format!("vat({v}, {m})"), t)),
        }
    }
}

type R<T> = std::result::Result<T, String>;

impl Scan {
    fn is_tape(&self, e: &Expr) -> bool { self.tape.is_some() && simple_path(e) == self.tape }

    fn conj(c: &[String]) -> String { if c.is_empty() { "true".into() } else { c.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(" && ") } }

    fn block(&mut self, b: &Block, cond: &[String]) -> R<()> {
        for s in &b.stmts { self.stmt(s, cond)?; }
        Ok(())
    }

    fn stmt(&mut self, s: &Stmt, cond: &[String]) -> R<()> {
        match s {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("uninitialized")?;
                let n = match &l.pat {
                    Pat::Ident(i) if i.by_ref.is_none() => i.ident.to_string(),
                    Pat::Type(t) => match &*t.pat { Pat::Ident(i) if i.by_ref.is_none() => i.ident.to_string(), _ => return Err("pattern".into()) },
                    Pat::Wild(_) => "_".into(),
                    _ => return Err(format!("pattern {}", ts(&l.pat))),
                };
                if let Pat::Ident(i) = &l.pat { if i.mutability.is_some() { return Err("mutable state in a loop".into()); } }
                if self.tape.as_ref().is_some_and(|t| mentions(&ts(&init.expr), t)) {
                    // The value may be what is pushed.
                    let v = self.value(&init.expr)?;
                    self.env.insert(n, format!("\u{1}{}", serde(&v)));
                    return Ok(());
                }
                // What cannot be expressed matters only if it is used.
                let e = self.spec(&init.expr).unwrap_or_else(|e| format!("\u{2}{e}"));
                self.env.insert(n, e);
                Ok(())
            }
            Stmt::Expr(e, _) => self.effect(e, cond),
            Stmt::Macro(m) => Err(format!("macro {}", path_str(&m.mac.path))),
            Stmt::Item(_) => Err("item".into()),
        }
    }

    fn effect(&mut self, e: &Expr, cond: &[String]) -> R<()> {
        match e {
            Expr::Paren(p) => self.effect(&p.expr, cond),
            Expr::Block(b) => { let env = self.env.clone(); self.block(&b.block, cond)?; self.env = env; Ok(()) }
            Expr::Tuple(t) if t.elems.is_empty() => Ok(()),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && cond.is_empty() => {
                let v = simple_path(&b.left).ok_or("assignment")?;
                let e = self.int(&b.right)?;
                if self.sums.get(&v) != Some(&e) || self.effects.iter().any(|x| matches!(x, Effect::Add(w, _) if *w == v)) { return Err(format!("mutable state in a loop: {v}")); }
                let x = self.env[&v].clone();
                self.env.insert(v.clone(), format!("({x} + {e})"));
                self.effects.push(Effect::Add(v, e));
                Ok(())
            }
            Expr::Call(_) if call_path(e).is_some_and(|p| p.ends_with("__within")) => Ok(()),
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m) if self.is_tape(&m.receiver) && m.method == "jump" => {
                    self.moved = true;
                    self.jump = Some(self.int(&m.args[0])?);
                    Ok(())
                }
                _ => Err(format!("effect {}", ts(e))),
            },
            Expr::MethodCall(m) if m.method == "push" && simple_path(&m.receiver).is_some() => {
                if !cond.is_empty() { return Err("conditional push".into()); }
                let v = simple_path(&m.receiver).unwrap();
                let x = self.value(&m.args[0])?;
                self.effects.push(Effect::Push(v, x));
                Ok(())
            }
            Expr::Assign(a) => {
                let v = simple_path(&a.left).ok_or("assignment")?;
                let c = Self::conj(cond);
                match unparen(&a.right) {
                    Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if b.value => self.effects.push(Effect::Flag(v, c)),
                    Expr::Call(x) if call_path(&a.right).as_deref() == Some("Some") && simple_path(&x.args[0]).as_deref() == Some(&self.i) => self.effects.push(Effect::Index(v, c)),
                    x => return Err(format!("assignment of {}", ts(x))),
                }
                Ok(())
            }
            Expr::If(f) => {
                // A block that escapes.
                if f.else_branch.is_none() && diverges(&f.then_branch) {
                    let mut cs = cond.to_vec();
                    cs.push(self.bool(&f.cond)?);
                    self.effects.push(Effect::Escape(Self::conj(&cs)));
                    return Ok(());
                }
                // A guard of a search: it changes nothing about what has been found.
                if f.else_branch.is_none() {
                    let guard = ts(&f.cond).replace(' ', "");
                    if guard.starts_with("!found__") || guard.starts_with("found__") && guard.ends_with(".is_none()") {
                        let env = self.env.clone();
                        self.block(&f.then_branch, cond)?;
                        self.env = env;
                        return Ok(());
                    }
                    if let Some(()) = empty(&f.then_branch) { return Ok(()); }
                    if pure_panic(&f.then_branch) { return Ok(()); }
                    let mut cs = cond.to_vec();
                    cs.push(self.bool(&f.cond)?);
                    let env = self.env.clone();
                    self.block(&f.then_branch, &cs)?;
                    self.env = env;
                    return Ok(());
                }
                // Pushes in both branches.
                let c = self.bool(&f.cond)?;
                let (env, jump, n) = (self.env.clone(), self.jump.clone(), self.effects.len());
                self.block(&f.then_branch, cond)?;
                let a: Vec<Effect> = self.effects.drain(n..).collect();
                self.env = env.clone(); self.jump = jump.clone();
                let t = self.takes;
                match &*f.else_branch.as_ref().unwrap().1 {
                    Expr::Block(b) => self.block(&b.block, cond)?,
                    e => self.effect(e, cond)?,
                }
                let b: Vec<Effect> = self.effects.drain(n..).collect();
                self.takes = self.takes.max(t);
                self.env = env; self.jump = jump;
                match (&a[..], &b[..]) {
                    ([Effect::Push(v, x)], [Effect::Push(w, y)]) if v == w => self.effects.push(Effect::Push(v.clone(), Value::If(c, Box::new(x.clone()), Box::new(y.clone())))),
                    ([], []) => {}
                    _ => return Err("branches".into()),
                }
                Ok(())
            }
            _ => Err(format!("effect {}", ts(e))),
        }
    }

    /// A value to push.
    fn value(&mut self, e: &Expr) -> R<Value> {
        match e {
            Expr::Paren(p) => self.value(&p.expr),
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m) if self.is_tape(&m.receiver) && (m.method == "take" || m.method == "take_given") => {
                    self.moved = true;
                    self.takes += 1;
                    let p = if m.method == "take_given" { Some(self.param(&m.args[0])?) } else { None };
                    Ok(Value::Take(self.jump.take(), p))
                }
                Expr::Call(c) if call_path(&t.expr).is_some_and(|p| p.ends_with("::read")) && !c.args.is_empty() && c.args.len() < 3 && self.is_tape(&c.args[0]) => {
                    self.moved = true;
                    self.takes += 1;
                    let p = if c.args.len() == 2 { Some(self.param(&c.args[1])?) } else { None };
                    Ok(Value::Take(self.jump.take(), p))
                }
                _ => Err(format!("value {}", ts(e))),
            },
            Expr::Call(c) if call_path(e).as_deref() == Some("Some") => Ok(Value::Some(Box::new(self.value(&c.args[0])?))),
            Expr::Path(_) if simple_path(e).as_deref() == Some("None") => Ok(Value::None),
            Expr::Path(_) => {
                let n = simple_path(e).ok_or("path")?;
                match self.env.get(&n) {
                    Some(x) if x.starts_with('\u{1}') => Ok(unserde(&x[1..])),
                    _ => Ok(Value::Pure(self.spec(e)?)),
                }
            }
            Expr::If(f) => {
                let c = self.bool(&f.cond)?;
                let (env, jump, t) = (self.env.clone(), self.jump.clone(), self.takes);
                let a = self.value_block(&f.then_branch)?;
                let u = self.takes;
                self.env = env.clone(); self.jump = jump; self.takes = t;
                let b = match &f.else_branch { Some((_, e)) => self.value(e)?, None => return Err("if".into()) };
                self.env = env;
                self.takes = self.takes.max(u);
                Ok(Value::If(c, Box::new(a), Box::new(b)))
            }
            Expr::Block(b) => { let env = self.env.clone(); let v = self.value_block(&b.block); self.env = env; v }
            Expr::Match(m) if crate::norm::pure(&m.expr) => {
                // Against numbers: a chain of conditions.
                fn numbers(p: &Pat) -> Option<Vec<String>> {
                    match p {
                        Pat::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some(vec![i.to_string()]),
                        Pat::Or(o) => o.cases.iter().map(numbers).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                        Pat::Paren(p) => numbers(&p.pat),
                        _ => None,
                    }
                }
                let (last, first) = m.arms.split_last().ok_or("match")?;
                let x = ts(&m.expr);
                let mut text = String::new();
                for a in first {
                    match (numbers(&a.pat), &a.guard) {
                        (Some(n), None) => text += &format!("if {} {{ {} }} else ", n.iter().map(|n| format!("({x}) == {n}")).collect::<Vec<_>>().join(" || "), ts(&a.body)),
                        _ => return Err(format!("value {}", ts(e))),
                    }
                }
                match (&last.pat, &last.guard) {
                    (Pat::Wild(_), None) => text += &format!("{{ {} }}", ts(&last.body)),
                    (Pat::Ident(i), None) if i.subpat.is_none() && i.by_ref.is_none() => text += &format!("{{ let {} = {x}; {} }}", i.ident, ts(&last.body)),
                    _ => return Err(format!("value {}", ts(e))),
                }
                self.value(&crate::norm::ex(&text))
            }
            _ => {
                if self.tape.as_ref().is_some_and(|t| mentions(&ts(e), t)) { return Err(format!("value {}", ts(e))); }
                Ok(Value::Pure(self.spec(e)?))
            }
        }
    }

    fn value_block(&mut self, b: &Block) -> R<Value> {
        // A nested vector.
        let is_ghost = |s: &Stmt| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__ghost"));
        let stmts: Vec<&Stmt> = b.stmts.iter().filter(|s| !is_ghost(s)).collect();
        if let [first @ .., Stmt::Local(l), Stmt::Expr(Expr::ForLoop(f), _), Stmt::Expr(t, None)] = &stmts[..] {
            if let Pat::Ident(v) = &l.pat {
                let v = v.ident.to_string();
                if simple_path(t).as_deref() == Some(&v) {
                    for s in first { self.stmt(s, &[])?; }
                    let i = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), _ => return Err("pattern".into()) };
                    let r = match unparen(&f.expr) { Expr::Range(r) => r.clone(), _ => return Err("range".into()) };
                    let hi = self.int(r.end.as_ref().ok_or("range")?)?;
                    let m = format!("{}m", self.k);
                    let mut s = Scan { tape: self.tape.clone(), env: self.env.clone(), jump: None, moved: false, takes: 0, effects: vec![], k: m.clone(), i: i.clone(), bits: self.bits.clone(), sums: HashMap::new() };
                    s.env.insert(i, m.clone());
                    let body: Vec<Stmt> = f.body.stmts.iter().filter(|s| !matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__ghost") || m.mac.path.is_ident("__inv"))).cloned().collect();
                    for x in &body { s.stmt(x, &[])?; }
                    if s.moved { self.moved = true; }
                    match &s.effects[..] {
                        [Effect::Push(w, x)] if *w == v && !x.sequential() => return Ok(Value::Many(m, hi, Box::new(x.clone()))),
                        _ => return Err("nested loop".into()),
                    }
                }
            }
        }
        let n = stmts.len();
        if n == 0 { return Err("empty block".into()); }
        for s in &stmts[..n - 1] { self.stmt(s, &[])?; }
        match stmts[n - 1] { Stmt::Expr(e, None) => self.value(e), _ => Err("no value".into()) }
    }

    /// A parameter: an executable value, to be written as is.
    fn param(&self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => self.param(&p.expr),
            Expr::Tuple(t) => Ok(format!("({})", t.elems.iter().map(|e| self.param(e)).collect::<R<Vec<_>>>()?.join(", "))),
            Expr::Cast(c) => {
                let t = ts(&c.ty);
                Ok(format!("({} as {t})", self.spec(&c.expr)?))
            }
            _ => self.spec(e),
        }
    }

    fn int(&self, e: &Expr) -> R<String> { Ok(format!("({} as int)", self.spec(e)?)) }
    fn bool(&self, e: &Expr) -> R<String> { self.spec(e) }

    /// An expression whose type is evident, as a term of that type.
    fn typed(&self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => self.typed(&p.expr),
            Expr::Cast(c) => Ok(format!("({} as {})", self.spec(&c.expr)?, ts(&c.ty))),
            Expr::Field(_) | Expr::Index(_) => self.spec(e),
            _ => Err(format!("expression {}", ts(e))),
        }
    }

    /// An expression as one of specifications.
    fn spec(&self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => self.spec(&p.expr),
            Expr::Group(p) => self.spec(&p.expr),
            Expr::Lit(l) => Ok(ts(l)),
            Expr::Path(p) => match simple_path(e) {
                Some(n) => match self.env.get(&n) {
                    Some(x) if x.starts_with('\u{1}') => Err("use of a value that was read".into()),
                    Some(x) if x.starts_with('\u{2}') => Err(x[1..].to_string()),
                    Some(x) => Ok(x.clone()),
                    None => Ok(n),
                },
                None => Ok(ts(p)),
            },
            Expr::Field(f) => { let x = self.spec(&f.base)?; Ok(format!("{}.{}", x.trim_start_matches('&'), ts(&f.member))) }
            Expr::Reference(r) if r.mutability.is_none() => Ok(format!("&{}", self.spec(&r.expr)?)),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => { let x = self.spec(&u.expr)?; Ok(match x.strip_prefix('&') { Some(y) => y.into(), None => format!("(*{x})") }) }
                UnOp::Not(_) => Ok(format!("!({})", self.spec(&u.expr)?)),
                _ => Err("operator".into()),
            },
            Expr::Index(i) => { let x = self.spec(&i.expr)?; Ok(format!("{}@[{} as int]", x.trim_start_matches('&'), self.spec(&i.index)?)) }
            Expr::Cast(c) => match ts(&c.ty).as_str() {
                "u64" | "usize" | "u32" | "i64" => Ok(format!("({} as int)", self.spec(&c.expr)?)),
                "u8" | "u16" | "i8" | "i16" | "i32" => Ok(format!("({} as int)", self.typed(e)?)),
                t => Err(format!("cast to {t}")),
            },
            Expr::MethodCall(m) if m.args.len() == 1 && ["wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub"].contains(&m.method.to_string().as_str()) => {
                let a = match unparen(&m.args[0]) { Expr::Lit(l) => ts(l), a => self.typed(a)? };
                Ok(format!("(({}).{}({a}) as int)", self.typed(unparen(&m.receiver))?, m.method))
            }
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "len" => { let x = self.spec(&m.receiver)?; Ok(format!("{}@.len()", x.trim_start_matches('&'))) }
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "is_none" => Ok(format!("({} is None)", self.spec(&m.receiver)?)),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "is_some" => Ok(format!("({} is Some)", self.spec(&m.receiver)?)),
            Expr::MethodCall(m) if m.args.is_empty() && self.bits.contains_key(&m.method.to_string()) => Ok(format!("fbit(({}).0, {}u16)", self.spec(&m.receiver)?, self.bits[&m.method.to_string()])),
            Expr::If(i) if i.else_branch.is_some() => {
                let one = |b: &Block| match &b.stmts[..] { [Stmt::Expr(e, None)] => self.spec(e), _ => Err("block".into()) };
                let other = match &*i.else_branch.as_ref().unwrap().1 { Expr::Block(b) => one(&b.block)?, e => self.spec(e)? };
                Ok(format!("(if {} {{ {} as int }} else {{ {} as int }})", self.spec(&i.cond)?, one(&i.then_branch)?, other))
            }
            Expr::Call(c) if c.args.len() == 2 && call_path(e).is_some_and(|p| p.ends_with("has_bits")) => Ok(format!("fbit({}, {})", self.spec(&c.args[0])?, self.spec(&c.args[1])?)),
            Expr::Tuple(t) => Ok(format!("({})", t.elems.iter().map(|e| self.spec(e)).collect::<R<Vec<_>>>()?.join(", "))),
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::Add(_) => "+", BinOp::Sub(_) => "-", BinOp::Mul(_) => "*",
                    BinOp::And(_) => "&&", BinOp::Or(_) => "||",
                    BinOp::Lt(_) => "<", BinOp::Le(_) => "<=", BinOp::Gt(_) => ">", BinOp::Ge(_) => ">=",
                    BinOp::Eq(_) | BinOp::Ne(_) => {
                        // The tag of a type of tables.
                        let owner = |e: &Expr| match unparen(e) { Expr::Call(c) if c.args.is_empty() => call_path(unparen(e)).and_then(|p| p.replace(' ', "").strip_suffix("::tag").map(String::from)), _ => None };
                        for (x, y) in [(&b.left, &b.right), (&b.right, &b.left)] {
                            if let Some(t) = owner(y) {
                                let op = if matches!(b.op, BinOp::Ne(_)) { "!=" } else { "==" };
                                return Ok(format!("(crate::truetype::tag32({}) {op} <{t} as TableSpec>::spec_tag())", self.spec(x)?.trim_start_matches('&')));
                            }
                        }
                        let (l, r) = (self.spec(&b.left)?, self.spec(&b.right)?);
                        let plain = |e: &Expr| matches!(unparen(e), Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Unary(_));
                        let neg = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                        if plain(&b.left) && plain(&b.right) {
                            return Ok(format!("{neg}vstd::std_specs::cmp::PartialEqSpec::eq_spec(&({l}), &({r}))"));
                        }
                        return Ok(format!("{neg}(({l}) == ({r}))"));
                    }
                    BinOp::Div(_) | BinOp::Rem(_) => {
                        let op = if matches!(b.op, BinOp::Div(_)) { "/" } else { "%" };
                        return Ok(format!("(({} as int) {op} ({} as int))", self.spec(&b.left)?, self.spec(&b.right)?));
                    }
                    BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_) if !crate::norm::logical(&b.left) && !crate::norm::logical(&b.right) => {
                        return Ok(format!("((({} as u64) {} ({} as u64)) as int)", self.spec(&b.left)?, ts(&b.op), self.spec(&b.right)?));
                    }
                    _ => return Err(format!("operator {}", ts(&b.op))),
                };
                Ok(format!("(({}) {op} ({}))", self.spec(&b.left)?, self.spec(&b.right)?))
            }
            Expr::Block(b) if b.label.is_none() => {
                // Names for parts of the expression.
                let stmts: Vec<&Stmt> = b.block.stmts.iter().filter(|s| !matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__ghost"))).collect();
                let Some((Stmt::Expr(last, None), first)) = stmts.split_last() else { return Err(format!("expression {}", ts(e))) };
                let mut sub = Scan { tape: self.tape.clone(), env: self.env.clone(), jump: None, moved: false, takes: 0, effects: vec![], k: self.k.clone(), i: self.i.clone(), bits: self.bits.clone(), sums: HashMap::new() };
                for s in first {
                    match s {
                        Stmt::Local(syn::Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => {
                            let pat = match pat { Pat::Type(t) => &*t.pat, p => p };
                            match pat {
                                Pat::Ident(i) if i.mutability.is_none() && i.subpat.is_none() => { let v = sub.spec(expr)?; sub.env.insert(i.ident.to_string(), v); }
                                _ => return Err(format!("expression {}", ts(e))),
                            }
                        }
                        _ => return Err(format!("expression {}", ts(e))),
                    }
                }
                sub.spec(last)
            }
            _ => Err(format!("expression {}", ts(e))),
        }
    }
}

// Values that were bound, kept in the environment.
thread_local! { static POOL: std::cell::RefCell<Vec<Value>> = const { std::cell::RefCell::new(vec![]) }; }
fn serde(v: &Value) -> String { POOL.with(|p| { let mut p = p.borrow_mut(); p.push(v.clone()); (p.len() - 1).to_string() }) }
fn unserde(s: &str) -> Value { POOL.with(|p| p.borrow()[s.parse::<usize>().unwrap()].clone()) }

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::Block(b), _)) => diverges(&b.block),
        Some(Stmt::Expr(Expr::If(f), _)) => diverges(&f.then_branch) && f.else_branch.as_ref().is_some_and(|(_, e)| match &**e { Expr::Block(b) => diverges(&b.block), _ => false }),
        _ => false,
    }
}
fn empty(b: &Block) -> Option<()> { if b.stmts.is_empty() { Some(()) } else { None } }
fn pure_panic(b: &Block) -> bool { let t: String = b.stmts.iter().map(ts).collect(); t.contains("__panic ()") && !t.contains("push") && !t.contains(" = ") && !t.contains('?') }

impl VisitMut for Inv {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if self.error.is_none() {
                if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                    match self.annotate(f) { Ok(v) => out.extend(v), Err(e) => self.error = Some(format!("loop: {e}")) }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

/// Turns the markers in a printed body into text.
pub fn restore(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    loop {
        let (a, b) = (rest.find("__inv !("), rest.find("__ghost !("));
        let (a2, b2) = (rest.find("__inv!("), rest.find("__ghost!("));
        let (at, inv) = match (a.or(a2), b.or(b2)) { (Some(x), Some(y)) => if x < y { (x, true) } else { (y, false) }, (Some(x), None) => (x, true), (None, Some(y)) => (y, false), _ => break };
        let q = at + rest[at..].find('"').unwrap() + 1;
        let e = q + rest[q..].find('"').unwrap();
        let end = e + rest[e..].find(';').unwrap() + 1;
        let text = unhex(&rest[q..e]);
        if inv {
            let open = rest[..at].rfind('{').unwrap();
            out += &rest[..open];
            if !text.is_empty() { out += "\n        invariant\n"; out += &text; out += ",\n    "; }
            out += "{ ";
        } else {
            out += &rest[..at];
            out += &text;
        }
        rest = &rest[end..];
    }
    out + rest
}

/// Counts conditional reads.
struct Count(usize);
impl VisitMut for Count {
    fn visit_expr_if_mut(&mut self, f: &mut ExprIf) {
        if conditional(f).is_some() { self.0 += 1; }
        visit_mut::visit_expr_if_mut(self, f);
    }
}

/// if C { Some(tape.take()?) } else { None }
fn conditional(f: &ExprIf) -> Option<&ExprMethodCall> {
    let a = match &f.then_branch.stmts[..] { [Stmt::Expr(e, None)] => e, _ => return None };
    match &*f.else_branch.as_ref()?.1 { Expr::Block(b) => match &b.block.stmts[..] { [Stmt::Expr(e, None)] if simple_path(e).as_deref() == Some("None") => {}, _ => return None }, _ => return None }
    let c = match a { Expr::Call(c) if call_path(a).as_deref() == Some("Some") => &c.args[0], _ => return None };
    match c { Expr::Try(t) => match &*t.expr { Expr::MethodCall(m) if m.method == "take" || m.method == "take_given" => Some(m), _ => None }, _ => None }
}

/// Blocks that consist of a value as the value, and options assigned under a condition as conditional options.
struct Tidy;
impl VisitMut for Tidy {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // { let mut v = None; if C { v = Some(X); } v }
        let n = b.stmts.len();
        if n < 2 { return; }
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            let new = match &b.stmts[k..k + 2] {
                [Stmt::Local(l), Stmt::Expr(Expr::If(f), _)] if f.else_branch.is_none() => match (&l.pat, &l.init) {
                    (Pat::Ident(v), Some(i)) if simple_path(&i.expr).as_deref() == Some("None") && !mentions(&ts(&f.cond), &v.ident.to_string()) => match &f.then_branch.stmts[..] {
                        [Stmt::Expr(Expr::Assign(a), _)] if simple_path(&a.left).as_deref() == Some(&v.ident.to_string()) => Some(format!("let {} = if {} {{ {} }} else {{ None }};", ts(&l.pat), ts(&f.cond), ts(&a.right))),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some(t) = new { b.stmts[k] = parse_str_stmt(&t); b.stmts.remove(k + 1); }
            k += 1;
        }
        // { let v = E; v }
        if let [Stmt::Local(l), Stmt::Expr(t, None)] = &b.stmts[..] {
            if let (Pat::Ident(v), Some(i)) = (&l.pat, &l.init) {
                if i.diverge.is_none() && simple_path(t).as_deref() == Some(&v.ident.to_string()) { b.stmts = vec![tail((*i.expr).clone())]; }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => for a in c.args.iter_mut() { unblock(a); },
            Expr::Try(t) => unblock(&mut t.expr),
            Expr::Paren(p) => unblock(&mut p.expr),
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let Some(i) = &mut l.init { unblock(&mut i.expr); }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn unblock(e: &mut Expr) {
    while let Expr::Block(b) = e {
        if b.label.is_some() || !b.attrs.is_empty() { return; }
        match &b.block.stmts[..] { [Stmt::Expr(v, None)] => { let v = v.clone(); *e = v; } _ => return }
    }
}

/// Names the parts of tuples that read, in order.
struct Hoist { fresh: usize, tape: String }
impl VisitMut for Hoist {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Tuple(t) = e {
            let n = t.elems.iter().filter(|x| mentions(&ts(x), &self.tape) && matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_))).count();
            if n < 2 { return; }
            let mut stmts: Vec<Stmt> = vec![];
            for x in t.elems.iter_mut() {
                if matches!(x, Expr::Lit(_) | Expr::Path(_)) { continue; }
                self.fresh += 1;
                let name = format!("part__{}", self.fresh);
                stmts.push(parse_str_stmt(&format!("let {name} = {};", ts(x))));
                *x = ex(&name);
            }
            stmts.push(tail(Expr::Tuple(t.clone())));
            *e = block_expr(stmts);
        }
    }
}

/// What is known after conditional reads, so that their combinations need not be considered.
struct Hints { tape: String, bits: HashMap<String, u64>, fresh: usize, read: HashMap<String, String> }
impl VisitMut for Hints {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut after = None;
            let mut call = None;
            if let Stmt::Local(syn::Local { pat: Pat::Ident(x), init: Some(init), .. }) = &s {
                let t = &self.tape;
                let frame = format!("assert(wf(*{t}) && {t}.data() == old({t}).data() && {t}.fault() == old({t}).fault());");
                let x = &x.ident;
                let mut value = (*init.expr).clone();
                unblock(&mut value);
                match &value {
                    Expr::If(f) => if let Some(m) = conditional(f) {
                        if m.method == "take" {
                            let scan = Scan { tape: None, env: Env::new(), jump: None, moved: false, takes: 0, effects: vec![], k: String::new(), i: String::new(), bits: self.bits.clone(), sums: HashMap::new() };
                            if let Ok(c) = scan.spec(&f.cond) {
                                self.fresh += 1;
                                let n = self.fresh;
                                call = Some(format!("crate::typeface::take_if({t}, {})?", ts(&f.cond)));
                                out.push(parse_str_stmt(&format!("__ghost!(\"{}\");", hex(&format!("let ghost h__{n} = {t}.pos();")))));
                                after = Some(format!("{frame} assert({t}.pos() == cstep(h__{n}, {c}, osz({x})));"));
                                self.read.insert(x.to_string(), format!("Ghost({c}), Ghost(h__{n})"));
                            }
                        }
                    },
                    Expr::Match(m) if mentions(&ts(m), t) => {
                        call = followed(m, t, &self.bits, &self.read);
                        after = Some(frame);
                    }
                    Expr::Block(b) if mentions(&ts(b), t) => if let Some(m) = unwrapped(b) {
                        call = followed(&m, t, &self.bits, &self.read);
                        if call.is_some() { after = Some(frame); }
                    },
                    _ => {}
                }
            }
            if let Stmt::Local(l) = &mut s { match call {
                Some(c) => *l.init.as_mut().unwrap().expr = ex(&c),
                None => self.visit_local_mut(l),
            } } else { self.visit_stmt_mut(&mut s); }
            out.push(s);
            if let Some(a) = after { out.push(parse_str_stmt(&format!("__ghost!(\"{}\");", hex(&a)))); }
        }
        b.stmts = out;
    }
}

/// { let o = match X { Some(v) => v, None => 0 }; if C .. else { None } } as match X { Some(o) => if C .. else { None }, None => None }
fn unwrapped(b: &ExprBlock) -> Option<ExprMatch> {
    let (l, f) = match &b.block.stmts[..] { [Stmt::Local(l), Stmt::Expr(Expr::If(f), None)] => (l, f), _ => return None };
    let o = match &l.pat { Pat::Ident(i) => &i.ident, Pat::Type(t) => match &*t.pat { Pat::Ident(i) => &i.ident, _ => return None }, _ => return None };
    let m = match unparen(&l.init.as_ref()?.expr) { Expr::Match(m) if m.arms.len() == 2 => m, _ => return None };
    let v = match &m.arms[0].pat { Pat::TupleStruct(p) if p.path.is_ident("Some") && p.elems.len() == 1 => match &p.elems[0] { Pat::Ident(i) => i.ident.to_string(), _ => return None }, _ => return None };
    if simple_path(&m.arms[0].body).as_deref() != Some(&v) || !matches!(ts(&m.arms[1].body).as_str(), "0" | "0u16") { return None; }
    match ex(&format!("match {} {{ Some({o}) => {}, None => None }}", ts(&m.expr), ts(f))) { Expr::Match(m) => Some(m), _ => None }
}

/// match X { Some(o) => if C { tape.jump(P + o)?; Some(tape.take()?) } else { None }, _ => None }
fn followed(m: &ExprMatch, t: &str, bits: &HashMap<String, u64>, read: &HashMap<String, String>) -> Option<String> {
    let x = simple_path(&m.expr)?;
    let ghosts = read.get(&x)?;
    if m.arms.len() != 2 { return None; }
    let (first, second) = if matches!(&m.arms[0].pat, Pat::TupleStruct(_)) { (&m.arms[0], &m.arms[1]) } else { (&m.arms[1], &m.arms[0]) };
    let o = match &first.pat { Pat::TupleStruct(p) if p.path.is_ident("Some") && p.elems.len() == 1 => match &p.elems[0] { Pat::Ident(i) => i.ident.to_string(), _ => return None }, _ => return None };
    if simple_path(&second.body).as_deref() != Some("None") || first.guard.is_some() || second.guard.is_some() { return None; }
    let mut body = (*first.body).clone();
    unblock(&mut body);
    let f = match body { Expr::If(f) => f, _ => return None };
    let otherwise = f.else_branch.as_ref().map(|(_, e)| { let mut e = (**e).clone(); unblock(&mut e); e })?;
    if simple_path(&otherwise).as_deref() != Some("None") { return None; }
    let mut inner = f.then_branch.clone();
    while let [Stmt::Expr(Expr::Block(b), None)] = &inner.stmts[..] { if b.label.is_some() { return None; } let b = b.block.clone(); inner = b; }
    let (j, taken) = match &inner.stmts[..] { [Stmt::Expr(Expr::Try(j), _), Stmt::Expr(v, None)] => (j, v), _ => return None };
    let j = match &*j.expr { Expr::MethodCall(j) if j.method == "jump" && simple_path(&j.receiver).as_deref() == Some(t) => j, _ => return None };
    let c = match taken { Expr::Call(c) if call_path(taken).as_deref() == Some("Some") => unparen(&c.args[0]), _ => return None };
    let c = match c { Expr::Try(c) => unparen(&c.expr), _ => return None };
    let c = match c { Expr::MethodCall(c) if c.method == "take" && c.args.is_empty() && simple_path(&c.receiver).as_deref() == Some(t) => c, _ => return None };
    let kind = match &c.turbofish { Some(g) => ts(g), None => String::new() };
    let scan = Scan { tape: None, env: Env::new(), jump: None, moved: false, takes: 0, effects: vec![], k: String::new(), i: String::new(), bits: bits.clone(), sums: HashMap::new() };
    let squeeze = |s: String| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let c = squeeze(ts(unparen(&f.cond)));
    if c != format!("{o}>0") && c != format!("{o}!=0") && c != format!("0<{o}") { return None; }
    let (base, off) = match unparen(&j.args[0]) { Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => if mentions(&ts(&b.left), &o) { (&b.right, &b.left) } else { (&b.left, &b.right) }, _ => return None };
    let off = match unparen(off) { Expr::Cast(c) => format!("{}as{}", squeeze(ts(unparen(&c.expr))), ts(&c.ty)), e => squeeze(ts(e)) };
    if mentions(&ts(base), &o) || scan.int(base).is_err() || (off != format!("{o}asu64") && off != format!("u64::from({o})")) { return None; }
    Some(format!("crate::typeface::take_at_if{kind}({t}, {x}, {}, {ghosts})?", ts(base)))
}
