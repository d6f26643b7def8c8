//! Rewrites of the source as a whole that do not change what it does: constants are evaluated, and loops of other
//! forms are written as those that the rest knows.
use crate::norm::*;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const WIDTHS: [(&str, u32); 6] = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 127)];

/// The unsigned constants of the source by name; those with different values in different places are left alone.
#[derive(Default)]
struct Known(HashMap<String, Option<u128>>);

fn width(t: &Type) -> Option<u32> { let t = ts(t); WIDTHS.iter().find(|w| w.0 == t).map(|w| w.1) }

impl Known {
    fn eval(&self, e: &Expr, bits: u32) -> Option<u128> {
        let fit = |x: u128| if x >> bits == 0 { Some(x) } else { None };
        match unparen(e) {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => fit(i.base10_parse().ok()?),
            Expr::Path(p) => {
                let t = ts(p).replace(' ', "");
                if let Some((w, "MAX")) = t.split_once("::") { return fit((1u128 << WIDTHS.iter().find(|x| x.0 == w)?.1) - 1); }
                fit((*self.0.get(&p.path.segments.last()?.ident.to_string())?)?)
            }
            Expr::Cast(c) => {
                let w = width(&c.ty)?;
                let x = self.eval(&c.expr, 127)?;
                fit(x & ((1u128 << w) - 1))
            }
            Expr::Binary(b) => {
                let (x, y) = (self.eval(&b.left, bits)?, self.eval(&b.right, if matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_)) { 64 } else { bits })?);
                fit(match b.op {
                    BinOp::Add(_) => x.checked_add(y)?, BinOp::Sub(_) => x.checked_sub(y)?, BinOp::Mul(_) => x.checked_mul(y)?,
                    BinOp::Div(_) => x.checked_div(y)?, BinOp::Rem(_) => x.checked_rem(y)?,
                    BinOp::BitAnd(_) => x & y, BinOp::BitOr(_) => x | y, BinOp::BitXor(_) => x ^ y,
                    BinOp::Shl(_) if y < bits as u128 => x.checked_shl(y as u32)? & ((1u128 << bits) - 1),
                    BinOp::Shr(_) if y < bits as u128 => x >> y,
                    _ => return None,
                })
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && bits < 127 => Some(!self.eval(&u.expr, bits)? & ((1u128 << bits) - 1)),
            _ => None,
        }
    }
}

/// Collects the constants.
struct Collect<'a>(&'a mut Known, bool);
impl VisitMut for Collect<'_> {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        if let Some(w) = width(&c.ty) {
            let v = self.0.eval(&c.expr, w);
            let name = c.ident.to_string();
            match self.0.0.get(&name) {
                Some(x) if *x != v && (x.is_some() || self.1) => { self.0.0.insert(name, None); }
                _ => { if v.is_some() || self.1 { self.0.0.insert(name, v); } }
            }
        }
    }
}

struct Shape<'a>(&'a Known);
impl VisitMut for Shape<'_> {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        if let Some(w) = width(&c.ty) {
            if matches!(&*c.expr, Expr::Lit(_)) { return; }
            if let Some(v) = self.0.eval(&c.expr, w) { *c.expr = ex(&format!("{v}{}", ts(&c.ty))); }
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        last(&mut f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        last(&mut f.block);
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        nexts(b);
        searches(b);
        assigned(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e { guarded(m); }
        if let Expr::Loop(l) = e { if let Some(x) = looped(l) { *e = x; } }
        if let Expr::Closure(c) = e {
            shadowed(c);
            if let Some(x) = carried(&c.body) { *c.body = x; }
            if let Expr::Block(b) = &mut *c.body { last(&mut b.block); }
        }
        if let Expr::Try(t) = e { if let Some(x) = tried(&t.expr) { *e = x; } }
    }
}

/// match x { Some(p) if g => A, _ => B } as match x { Some(p) => if g { A } else { B }, _ => B }.
fn guarded(m: &mut ExprMatch) {
    if m.arms.len() != 2 || m.arms[1].guard.is_some() || !matches!(m.arms[1].pat, Pat::Wild(_)) { return; }
    let one = matches!(&m.arms[0].pat, Pat::TupleStruct(p) if p.path.segments.last().is_some_and(|s| s.ident == "Some") && p.elems.len() == 1 && matches!(&p.elems[0], Pat::Ident(i) if i.subpat.is_none()));
    if !one { return; }
    let other = ts(&m.arms[1].body);
    if let Some((_, g)) = m.arms[0].guard.take() {
        if matches!(&*g, Expr::Let(_)) { m.arms[0].guard = Some((Default::default(), g)); return; }
        *m.arms[0].body = ex(&format!("if {} {{ {} }} else {{ {other} }}", ts(&g), ts(&m.arms[0].body)));
    }
}

/// let mut v = D; if C { v = E; } as let mut v = if C { E } else { D };
fn assigned(b: &mut Block) {
    let mut j = 0;
    while j + 1 < b.stmts.len() {
        let mut new = None;
        if let (Stmt::Local(syn::Local { pat, init: Some(x), .. }), Stmt::Expr(Expr::If(i), _)) = (&b.stmts[j], &b.stmts[j + 1]) {
            let (v, ty) = match pat { Pat::Ident(i) => (i.ident.to_string(), String::new()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), format!(": {}", ts(&t.ty))), _ => (String::new(), String::new()) }, _ => (String::new(), String::new()) };
            if let ([Stmt::Expr(Expr::Assign(a), Some(_))], true) = (&i.then_branch.stmts[..], i.else_branch.is_none() && x.diverge.is_none() && !v.is_empty()) {
                let (d, e) = (ts(&x.expr).replace(' ', ""), ts(&a.right));
                let none = d == "None" || d.ends_with("Default::default()") && e.starts_with("Some (");
                let plain = none || matches!(&*x.expr, Expr::Lit(_));
                if simple_path(&a.left).as_deref() == Some(&v) && plain && !mentions(&ts(&i.cond), &v) && !mentions(&e, &v) && !matches!(&*i.cond, Expr::Let(_)) {
                    new = Some(parse_str_stmt(&format!("let mut {v}{ty} = if {} {{ {e} }} else {{ {} }};", ts(&i.cond), if none { "None".into() } else { ts(&x.expr) })));
                }
            }
        }
        if let Some(s) = new { b.stmts[j] = s; b.stmts.remove(j + 1); } else { j += 1; }
    }
}

/// The value of a function or closure that is a try_fold or the like.
fn last(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { if let Some(x) = carried(e) { *e = x; } }
}

fn carried(e: &Expr) -> Option<Expr> { tried(e).map(|x| ex(&format!("Ok({})", ts(&x)))) }

/// x.try_for_each(|p| { ..; Ok(()) })? and x.try_fold(i, |mut a, p| { ..; Ok(a) })? as loops.
fn tried(e: &Expr) -> Option<Expr> {
    let m = match unparen(e) { Expr::MethodCall(m) => m, _ => return None };
    let c = match m.args.last()? { Expr::Closure(c) => c, _ => return None };
    let (rest, value) = match &*c.body {
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.split_last()? { (Stmt::Expr(v, None), r) => (r.to_vec(), v.clone()), _ => return None },
        v => (vec![], v.clone()),
    };
    let value = match unparen(&value) { Expr::Call(k) if k.args.len() == 1 && matches!(&*k.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Ok")) => k.args[0].clone(), _ => return None };
    let text = toks(&rest);
    if mentions(&text, "return") || mentions(&ts(&value), "return") { return None; }
    let over = ts(&m.receiver);
    if m.method == "try_for_each" && ts(&value) != "()" { return None; }
    match (m.method.to_string().as_str(), m.args.len(), c.inputs.len()) {
        ("try_for_each", 1, 1) => Some(ex(&format!("{{ for {} in {over} {{ {text} }} }}", ts(&c.inputs[0])))),
        ("try_fold", 2, 2) => {
            let a = match &c.inputs[0] { Pat::Ident(i) => i.ident.to_string(), _ => return None };
            let step = if simple_path(&value).as_deref() == Some(&a) { String::new() } else { format!("{a} = {};", ts(&value)) };
            // What the closure binds is not to hide the accumulator.
            if rest.iter().any(|s| matches!(s, Stmt::Local(l) if mentions(&ts(&l.pat), &a))) || mentions(&ts(&c.inputs[1]), &a) { return None; }
            Some(ex(&format!("{{ let mut {a} = {}; for {} in {over} {{ {text} {step} }} {a} }}", ts(&m.args[0]), ts(&c.inputs[1]))))
        }
        _ => None,
    }
}

/// Whether a variable is used, which is not told by a method of the same name.
fn uses(e: &Expr, n: &str) -> bool {
    let mut x = e.clone();
    Renamer { map: HashMap::from([(n.to_string(), format!("{n}__other"))]) }.visit_expr_mut(&mut x);
    ts(&x) != ts(e)
}

/// |..| { let x = f(x); g(x) } with x from outside as |..| { let x__own = f(x); g(x__own) }.
fn shadowed(c: &mut ExprClosure) {
    let params: Vec<String> = c.inputs.iter().map(ts).collect();
    let b = match &mut *c.body { Expr::Block(b) if b.label.is_none() => &mut b.block, _ => return };
    let mut bound: Vec<String> = vec![];
    for j in 0..b.stmts.len() {
        let l = match &b.stmts[j] { Stmt::Local(l) => l, _ => continue };
        let i = match &l.pat { Pat::Ident(i) => i, Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i, _ => continue }, _ => { bound.push(ts(&l.pat)); continue } };
        let n = i.ident.to_string();
        let own = l.init.as_ref().is_some_and(|x| x.diverge.is_none() && uses(&x.expr, &n));
        if own && !params.iter().chain(&bound).any(|p| mentions(p, &n)) {
            let mut r = Renamer { map: HashMap::from([(n.clone(), format!("{n}__own"))]) };
            if let Stmt::Local(l) = &mut b.stmts[j] { r.visit_pat_mut(&mut l.pat); }
            for s in &mut b.stmts[j + 1..] { r.visit_stmt_mut(s); }
        }
        bound.push(n);
    }
}

/// Breaks and continues of a loop with this body.
fn leaves(b: &[Stmt]) -> bool {
    b.iter().any(|s| { let t = ts(s); mentions(&t, "break") || mentions(&t, "continue") })
}

/// loop { if C { break; } .. } as while !C { .. }.
fn looped(l: &ExprLoop) -> Option<Expr> {
    if l.label.is_some() { return None; }
    let (first, rest) = l.body.stmts.split_first()?;
    let i = match first { Stmt::Expr(Expr::If(i), _) => i, _ => return None };
    let only = match &i.then_branch.stmts[..] { [Stmt::Expr(Expr::Break(b), _)] => b.expr.is_none() && b.label.is_none(), _ => false };
    if !only || matches!(&*i.cond, Expr::Let(_)) { return None; }
    let rest: Vec<Stmt> = match &i.else_branch {
        None => rest.to_vec(),
        Some((_, e)) if rest.is_empty() => match &**e { Expr::Block(b) => b.block.stmts.clone(), _ => return None },
        _ => return None,
    };
    if leaves(&rest) { return None; }
    Some(ex(&format!("while {} {{ {} }}", negated(&i.cond), toks(&rest))))
}

fn negated(e: &Expr) -> String {
    if let Expr::Binary(b) = unparen(e) {
        let op = match b.op { BinOp::Eq(_) => "!=", BinOp::Ne(_) => "==", BinOp::Lt(_) => ">=", BinOp::Ge(_) => "<", BinOp::Gt(_) => "<=", BinOp::Le(_) => ">", _ => "" };
        if !op.is_empty() { return format!("{} {op} {}", ts(&b.left), ts(&b.right)); }
    }
    if let Expr::Unary(u) = unparen(e) { if matches!(u.op, UnOp::Not(_)) { return ts(&u.expr); } }
    format!("!({})", ts(e))
}

/// let mut i = X; while let Some(P) = i.next() { .. } as for P in X { .. }.
fn nexts(b: &mut Block) {
    let mut j = 0;
    while j < b.stmts.len() {
        let mut new = None;
        if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
            if let Expr::Let(l) = &*w.cond {
                let pat = match &*l.pat { Pat::TupleStruct(p) if p.elems.len() == 1 && p.path.is_ident("Some") => Some(&p.elems[0]), _ => None };
                let it = match unparen(&l.expr) { Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => simple_path(&m.receiver), _ => None };
                if let (Some(pat), Some(it)) = (pat, it) {
                    let init = (0..j).rev().find(|&q| mentions(&ts(&b.stmts[q]), &it));
                    let elsewhere = b.stmts[j + 1..].iter().chain(&w.body.stmts).any(|s| mentions(&ts(s), &it));
                    if let (Some(q), false) = (init, elsewhere) {
                        if let Stmt::Local(syn::Local { pat: p, init: Some(x), .. }) = &b.stmts[q] {
                            let t = ts(&x.expr);
                            if ts(p) == format!("mut {it}") && !t.contains('?') && !mentions(&t, "tape") && x.diverge.is_none() {
                                new = Some((q, parse_str_stmt(&format!("for {} in {t} {}", ts(pat), ts(&w.body)))));
                            }
                        }
                    }
                }
            }
        }
        if let Some((q, s)) = new { b.stmts[j] = s; b.stmts.remove(q); } else { j += 1; }
    }
}

/// let mut f = None; for P in X { if C { f = Some(V); break; } } as a search, and likewise for flags.
fn searches(b: &mut Block) {
    for j in 0..b.stmts.len() {
        let mut new = None;
        if let Stmt::Expr(Expr::ForLoop(l), _) = &b.stmts[j] {
            let i = match &l.body.stmts[..] { [Stmt::Expr(Expr::If(i), _)] if i.else_branch.is_none() && l.label.is_none() && !matches!(&*i.cond, Expr::Let(_)) => i, _ => continue };
            let (a, k) = match &i.then_branch.stmts[..] { [Stmt::Expr(Expr::Assign(a), Some(_)), Stmt::Expr(Expr::Break(k), _)] => (a, k), _ => continue };
            let c = ts(&i.cond);
            let f = match simple_path(&a.left) { Some(f) if k.expr.is_none() && k.label.is_none() && !c.contains('?') && !mentions(&c, "tape") && !mentions(&c, &f) => f, _ => continue };
            let q = match (0..j).rev().find(|&q| mentions(&ts(&b.stmts[q]), &f)) { Some(q) => q, None => continue };
            let init = match &b.stmts[q] {
                Stmt::Local(syn::Local { pat, init: Some(x), .. }) => { let p = ts(pat).replace(' ', ""); if p == format!("mut{f}") || p.starts_with(&format!("mut{f}:")) { ts(&x.expr) } else { continue } }
                _ => continue,
            };
            let over = match unparen(&l.expr) {
                Expr::Reference(r) if r.mutability.is_none() => format!("({}).iter()", ts(&r.expr)),
                Expr::Range(r) => format!("({})", ts(r)),
                e @ Expr::MethodCall(_) => ts(e),
                _ => continue,
            };
            let v = ts(&a.right);
            if v.contains('?') || mentions(&v, "tape") || mentions(&v, &f) { continue; }
            let p = ts(&l.pat);
            let x = match (init.as_str(), v.as_str()) {
                ("false", "true") => format!("{over}.any(|{p}| {c})"),
                ("true", "false") => format!("!{over}.any(|{p}| {c})"),
                ("None", _) if v.starts_with("Some (") || v.starts_with("Some(") => format!("{over}.find_map(|{p}| if {c} {{ {v} }} else {{ None }})"),
                _ => continue,
            };
            new = Some((q, parse_str_stmt(&format!("let mut {f} = {x};"))));
        }
        if let Some((q, s)) = new { b.stmts[j] = s; b.stmts.remove(q); return searches(b); }
    }
}

pub fn shape(f: &mut File) {
    let mut k = Known::default();
    // Constants may be defined by others that come later.
    for last in [false, false, false, true] { Collect(&mut k, last).visit_file_mut(f); }
    Shape(&k).visit_file_mut(f);
}
