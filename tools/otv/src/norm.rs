//! Normalization of function bodies: inlining of what has no contract, and the
//! replacement of iterators, closures and errors by statements that the verifier knows.
use crate::load::*;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Whether stay is what it is expanded to.
pub static STAY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

pub struct Norm<'a> {
    pub krate: &'a Crate,
    pub module: String,
    pub owner: Option<String>,
    pub tape: Option<String>,
    pub fresh: usize,
    pub error: Option<String>,
    pub scopes: Vec<HashMap<String, Local>>,
    pub depth: usize,
    pub ret_result: bool,
    pub ret_option: bool,
    pub by_ref: bool,
    pub inlined: HashSet<String>,
}

#[derive(Clone)]
pub enum Local {
    Fun(Fun),
    Closure(ExprClosure),
}

pub fn ident(s: &str) -> Ident {
    if let Some(r) = s.strip_prefix("r#") { Ident::new_raw(r, Span::call_site()) } else { Ident::new(s, Span::call_site()) }
}

pub fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

pub fn ex(s: &str) -> Expr { parse_str(s).unwrap_or_else(|e| panic!("{s}: {e}")) }

pub fn simple_path(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => simple_path(&p.expr),
        Expr::Group(p) => simple_path(&p.expr),
        _ => None,
    }
}

pub fn unparen(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), e => e }
}

pub fn call_path(e: &Expr) -> Option<String> {
    if let Expr::Call(c) = e { if let Expr::Path(p) = unparen(&c.func) { return Some(path_str(&p.path)); } }
    None
}

pub fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}

pub fn tail(e: Expr) -> Stmt { Stmt::Expr(e, None) }
pub fn semi(e: Expr) -> Stmt { Stmt::Expr(e, Some(Default::default())) }

fn is_error_ctor(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Call(_) => call_path(unparen(e)).is_some_and(|p| p.contains("Error::") || p.ends_with("error")),
        _ => false,
    }
}

/// Err(..) built from an error constructor.
fn is_err(e: &Expr) -> bool {
    matches!(unparen(e), Expr::Call(_)) && call_path(unparen(e)).is_some_and(|p| p == "Err" || p.ends_with("Result::Err"))
}

fn err_expr() -> Expr { ex("Err(crate::typeface::error())") }
fn ret_err() -> Expr { ex("return Err(crate::typeface::error())") }

/// Renames local variables.
pub struct Renamer { pub map: HashMap<String, String> }
impl VisitMut for Renamer {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.leading_colon.is_none() {
            if let Some(n) = self.map.get(&p.segments[0].ident.to_string()) { p.segments[0].ident = ident(n); }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) { p.ident = ident(n); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_type_mut(&mut self, _: &mut Type) {}
}

/// The names that patterns bind.
struct Binders { names: std::collections::BTreeSet<String> }
impl VisitMut for Binders {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') { self.names.insert(n); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

/// Counts returns (of non-errors), breaks and question marks.
#[derive(Default)]
struct Exits { returns: usize, tries: usize, any_return: usize }
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                self.any_return += 1;
                if !r.expr.as_ref().is_some_and(|e| is_err(e)) { self.returns += 1; }
            }
            Expr::Try(_) => self.tries += 1,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn exits_block(b: &Block) -> Exits { let mut x = Exits::default(); x.visit_block_mut(&mut b.clone()); x }
fn exits_expr(b: &Expr) -> Exits { let mut x = Exits::default(); x.visit_expr_mut(&mut b.clone()); x }

/// Replaces type parameters and Self.
pub struct Types<'a> { pub erase: HashSet<String>, pub self_: Option<String>, pub subst: &'a HashMap<String, Type> }
impl VisitMut for Types<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // U::read(tape), where U is to be inferred.
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = unparen(&c.func) {
                let n = p.path.segments.len();
                if n == 2 && p.qself.is_none() && self.erase.contains(&p.path.segments[0].ident.to_string()) && p.path.segments[1].ident == "read" {
                    let (t, a) = (ts(&c.args[0]), c.args.iter().nth(1).map(ts));
                    match (c.args.len(), a) { (1, _) => *e = ex(&format!("{t}.take()")), (2, Some(a)) => *e = ex(&format!("{t}.take_given({a})")), _ => {} }
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some(s) = self.subst.get(&n) { *t = s.clone(); return; }
                if self.erase.contains(&n) { *t = parse_str("_").unwrap(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = &self.self_ {
            if p.segments[0].ident == "Self" {
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                let mut q: Path = parse_str(s).unwrap();
                for r in rest { q.segments.push(r); }
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// Makes the paths of another module absolute.
struct Qualify<'a> { krate: &'a Crate, module: String }
impl VisitMut for Qualify<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s = path_str(p);
        if s.starts_with("crate::") || s.starts_with("core::") || s.starts_with("std::") { return; }
        // The longest prefix that names a type, or a function of the crate.
        for n in (1..=p.segments.len()).rev() {
            let prefix = p.segments.iter().take(n).map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(full) = self.krate.resolve(&self.module, &prefix) {
                self.replace(p, n, &full);
                return;
            }
        }
        if let Some(u) = self.krate.uses.get(&self.module).and_then(|u| u.get(&p.segments[0].ident.to_string())) {
            if u.starts_with("crate::") { self.replace(p, 1, &u["crate::".len()..].to_string()); return; }
        }
        let local = join(&self.module, &s);
        if self.krate.funs.contains_key(&local) && p.segments.len() == 1 && self.krate.funs[&local].owner.is_none() {
            self.replace(p, 1, &local);
        }
    }
}
impl Qualify<'_> {
    fn replace(&self, p: &mut Path, n: usize, full: &str) {
        let mut q: Path = parse_str(&format!("crate::{full}")).unwrap();
        if let Some(l) = q.segments.last_mut() { l.arguments = p.segments[n - 1].arguments.clone(); }
        for r in p.segments.iter().skip(n) { q.segments.push(r.clone()); }
        *p = q;
    }
}

pub fn is_tape_bound(b: &TypeParamBound) -> bool {
    if let TypeParamBound::Trait(t) = b {
        let s = path_str(&t.path);
        return s.ends_with("tape::Read") || s == "TapeRead" || s.ends_with("io::Read") || s.ends_with("io::Seek");
    }
    false
}

/// Type parameters that stand for tapes; those that stand for what converts into a type.
pub fn special_params(krate: &Crate, module: &str, g: &Generics) -> (HashSet<String>, HashMap<String, Type>) {
    let (mut tapes, mut into) = (HashSet::new(), HashMap::new());
    let mut look = |name: String, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        for b in bounds {
            if is_tape_bound(b) { tapes.insert(name.clone()); }
            if let TypeParamBound::Trait(t) = b {
                let s = path_str(&t.path);
                if s == "Read" {
                    if let Some(u) = krate.uses.get(module).and_then(|u| u.get("Read")) {
                        if u.ends_with("tape::Read") { tapes.insert(name.clone()); }
                    }
                }
                if s == "Into" {
                    if let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() { into.insert(name.clone(), t.clone()); }
                    }
                }
            }
        }
    };
    for p in &g.params {
        if let GenericParam::Type(t) = p { look(t.ident.to_string(), &t.bounds); }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p { look(ts(&t.bounded_ty).trim().to_string(), &t.bounds); }
        }
    }
    (tapes, into)
}

pub enum Elem { Val(Expr), Tuple(Vec<Elem>) }

pub struct Src {
    pub setup: Vec<Stmt>,
    pub lo: Expr,
    pub hi: Expr,
    pub idx: String,
    pub body: Vec<Stmt>,
    pub elem: Elem,
    pub by_len: bool,
}

impl<'a> Norm<'a> {
    pub fn fail<T>(&mut self, what: impl Into<String>) -> Option<T> {
        if self.error.is_none() { self.error = Some(what.into()); }
        None
    }
    pub fn name(&mut self, base: &str) -> String {
        self.fresh += 1;
        format!("{}__{}", base.trim_start_matches("r#").trim_end_matches('_'), self.fresh)
    }

    // ---- preparation
    pub fn prep(&mut self, b: &mut Block) {
        struct Prep;
        impl VisitMut for Prep {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(_)) | Stmt::Item(Item::Use(_))));
                visit_mut::visit_block_mut(self, b);
                b.stmts.retain(|s| !noop(s));
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                strip_attrs(e);
                if let Expr::Match(m) = e { if let Some(x) = bool_match(m) { *e = x; } }
                if let Expr::MethodCall(m) = e { eta(m); }
                if let Expr::ForLoop(f) = e { skips(&mut f.body); }
                // Errors carry no description.
                if let Expr::Try(t) = e {
                    if is_err(&t.expr) { *e = ret_err(); return; }
                }
                if is_err(e) { *e = err_expr(); return; }
                if is_error_ctor(e) { *e = ex("crate::typeface::error()"); return; }
                if let Some(p) = call_path(e) {
                    if p.contains("panicking::") || p.contains("panic_") { *e = ex("crate::typeface::__panic()"); return; }
                    if p.ends_with("box_assume_init_into_vec_unsafe") || p.ends_with("into_vec") {
                        if let Some(items) = find_array(e) {
                            let mut s = String::from("{ let mut values__v = Vec::new(); ");
                            for i in items { s += &format!("values__v.push({});", ts(&i)); }
                            *e = ex(&(s + " values__v }"));
                        }
                    }
                    if p == "Vec::with_capacity" || p == "::Vec::with_capacity" {
                        // The capacity is not observable, but its computation may overflow.
                    }
                    if p.ends_with("from_elem") && p.contains("vec") { /* vec![x; n] */ }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                if let Stmt::Local(l) = s { l.attrs.clear(); }
                if let Stmt::Macro(m) = s {
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    *s = Stmt::Expr(e, m.semi_token);
                }
                visit_mut::visit_stmt_mut(self, s);
            }
        }
        Prep.visit_block_mut(b);
    }

    // ---- scopes
    fn lookup(&self, name: &str) -> Option<Local> {
        self.scopes.iter().rev().find_map(|s| s.get(name).cloned())
    }

    fn find_fun(&self, path: &str) -> Option<Fun> {
        if !path.contains("::") {
            if let Some(Local::Fun(f)) = self.lookup(path) { return Some(f); }
        }
        let k = self.krate;
        let ok = |f: &Fun| !f.contracted;
        if let Some(name) = path.strip_prefix("Self::") {
            if let Some(o) = &self.owner {
                return k.funs.values().find(|f| f.owner.as_ref() == Some(o) && f.sig.ident == name).filter(|f| ok(f)).cloned();
            }
        }
        if let Some(rest) = path.strip_prefix("crate::") {
            if let Some(f) = k.funs.get(rest) { return Some(f.clone()).filter(|f| ok(f)); }
        }
        if let Some(f) = k.funs.get(&join(&self.module, path)) {
            if f.owner.is_none() || path.contains("::") { return Some(f.clone()).filter(|f| ok(f)); }
        }
        if let Some((ty, name)) = path.rsplit_once("::") {
            if let Some(full) = k.resolve(&self.module, ty) {
                return k.funs.values().find(|f| f.owner.as_ref() == Some(&full) && f.sig.ident == name && f.trait_name.is_none()).filter(|f| ok(f)).cloned();
            }
        }
        // Free functions through imports or relative paths.
        let name = path.rsplit("::").next().unwrap();
        let mut c: Vec<_> = k.funs.values().filter(|f| ok(f) && f.owner.is_none() && f.sig.ident == name).collect();
        if let Some(u) = k.uses.get(&self.module).and_then(|u| u.get(path)) {
            let u = u.trim_start_matches("crate::").trim_start_matches("super::").trim_start_matches("self::");
            c.retain(|f| f.id.ends_with(u));
        } else if path.contains("::") {
            let p = path.trim_start_matches("crate::").trim_start_matches("super::").trim_start_matches("self::");
            c.retain(|f| f.id.ends_with(p));
        } else { return None; }
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn find_method(&self, recv: &Expr, name: &str, n: usize) -> Option<Fun> {
        let c: Vec<_> = self.krate.funs.values()
            .filter(|f| !f.contracted && f.sig.ident == name && f.sig.receiver().is_some() && f.sig.inputs.len() == n + 1)
            .collect();
        if c.len() == 1 { return Some(c[0].clone()); }
        if simple_path(recv).as_deref() == Some("self") {
            let c: Vec<_> = c.into_iter().filter(|f| f.owner == self.owner).collect();
            if c.len() == 1 { return Some(c[0].clone()); }
        }
        None
    }

    // ---- inlining
    /// The body of a function with its parameters bound to arguments.
    fn inline(&mut self, f: &Fun, args: Vec<Expr>) -> Option<Block> {
        if self.depth > 12 { return self.fail("recursive helpers"); }
        if !f.id.is_empty() { self.inlined.insert(f.id.clone()); }
        let mut body = f.block.clone();
        self.prep(&mut body);
        let foreign = f.module != self.module;
        if foreign { Qualify { krate: self.krate, module: f.module.clone() }.visit_block_mut(&mut body); }
        let mut erase = HashSet::new();
        for g in [&f.sig.generics, &f.generics] {
            for p in &g.params { if let GenericParam::Type(t) = p { erase.insert(t.ident.to_string()); } }
        }
        let (mut tapes, into) = special_params(self.krate, &f.module, &f.sig.generics);
        tapes.extend(special_params(self.krate, &f.module, &f.generics).0);
        let none = HashMap::new();
        let self_ = f.owner.as_ref().map(|o| format!("crate::{o}"));
        let foreign_self = f.owner != self.owner;
        Types { erase: erase.clone(), self_: if foreign_self { self_ } else { None }, subst: &none }.visit_block_mut(&mut body);
        let mut binders = Binders { names: Default::default() };
        binders.visit_block_mut(&mut body);
        let mut map = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut params: Vec<(Pat, Option<Type>)> = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => params.push((parse_pat("self"), None)),
                FnArg::Typed(t) => params.push(((*t.pat).clone(), Some((*t.ty).clone()))),
            }
        }
        if params.len() != args.len() { return self.fail(format!("arguments of {}", f.id)); }
        let mut shadow = Binders { names: Default::default() };
        for (p, _) in &params { let mut q = p.clone(); shadow.visit_pat_mut(&mut q); }
        for n in binders.names.iter().chain(&shadow.names) { let m = self.name(n); map.insert(n.clone(), m); }
        if map.contains_key("self") || f.sig.receiver().is_some() { let m = self.name("this"); map.insert("self".into(), m); }
        for ((p, t), a) in params.into_iter().zip(args) {
            let mut p = p;
            let pname = match &p { Pat::Ident(i) => Some(i.ident.to_string()), _ => None };
            let by_mut = match &t { Some(Type::Reference(r)) => r.mutability.is_some(), None => f.sig.receiver().is_some_and(|r| r.reference.is_some() && r.mutability.is_some()), _ => false };
            let place = { let mut e = unparen(&a).clone(); loop { match e { Expr::Reference(r) => e = *r.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => e = *expr, Expr::Paren(r) => e = *r.expr, e2 => break e2 } } };
            if by_mut || simple_path(&place) == self.tape && self.tape.is_some() {
                match (simple_path(&place), &pname) {
                    (Some(n), Some(p)) => { map.insert(p.clone(), n); continue; }
                    _ => return self.fail("mutable argument"),
                }
            }
            if matches!(unparen(&a), Expr::Closure(_)) || simple_path(&a).is_some_and(|n| matches!(self.lookup(&n), Some(Local::Closure(_)))) {
                let n = map.get(pname.as_deref().unwrap_or("")).cloned();
                if let Some(n) = n { lets.push(parse_str_stmt(&format!("let {n} = {};", ts(&a)))); continue; }
            }
            Renamer { map: map.clone() }.visit_pat_mut(&mut p);
            let is_self = t.is_none();
            if is_self {
                let m = map["self"].clone();
                let by_ref = f.sig.receiver().is_some_and(|r| r.reference.is_some());
                if let Some(n) = simple_path(&a) { if n == "self" { map.insert("self".into(), n); continue; } }
                let amp = if by_ref && !matches!(unparen(&a), Expr::Reference(_)) { "&" } else { "" };
                lets.push(parse_str_stmt(&format!("let {m} = {amp}{};", ts(&a))));
                continue;
            }
            let mut ty = t.unwrap();
            let plain = {
                let s = ts(&ty);
                let mut e = erase.clone(); e.insert("Self".into()); e.insert("impl".into());
                !s.contains('[') && !s.contains('\'') && !s.contains("str") && !s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| e.contains(w))
            };
            if foreign { Qualify { krate: self.krate, module: f.module.clone() }.visit_type_mut(&mut ty); }
            if let Some(s) = into.get(&ts(&ty)) { let _ = s; return self.fail("conversion in a helper"); }
            let mut stmt = match &p { Pat::Wild(_) => parse_str_stmt(&format!("let _ = {};", ts(&a))), _ => parse_str_stmt(&format!("let {} = {};", ts(&p), ts(&a))) };
            if plain {
                if let Stmt::Local(l) = &mut stmt {
                    l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(l.pat.clone()), colon_token: Default::default(), ty: Box::new(ty) });
                }
            }
            lets.push(stmt);
        }
        Renamer { map }.visit_block_mut(&mut body);
        // Tapes in turbofish.
        TapeArgs { tapes, drop: true }.visit_block_mut(&mut body);
        let mut b = self.elim(body)?;
        let mut stmts = lets;
        stmts.append(&mut b.stmts);
        conditional(&mut stmts);
        self.depth += 1;
        let out = Block { brace_token: Default::default(), stmts };
        self.depth -= 1;
        Some(out)
    }

    /// The value of a helper with its type, where the type may be all that tells what is read.
    fn typed(&mut self, f: &Fun, v: Expr) -> Expr {
        let ty = match &f.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Result") => match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => match a.args.first() { Some(GenericArgument::Type(t)) => t.clone(), _ => return v },
                    _ => return v,
                },
                _ => return v,
            },
            _ => return v,
        };
        let names: HashSet<String> = [&f.sig.generics, &f.generics].iter().flat_map(|g| g.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None })).chain(["Self".to_string(), "impl".to_string()]).collect();
        let s = ts(&ty);
        if !matches!(ty, Type::Tuple(_)) || s.contains('\'') || s.contains('&') || s.contains('[') || s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| names.contains(w)) { return v; }
        let mut ty = ty;
        if f.module != self.module { Qualify { krate: self.krate, module: f.module.clone() }.visit_type_mut(&mut ty); }
        let n = self.name("result");
        let (mut pre, t) = split_block(v);
        pre.push(parse_str_stmt(&format!("let {n}: {} = {};", ts(&ty), ts(&t))));
        pre.push(tail(ex(&n)));
        block_expr(pre)
    }

    fn inline_closure(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Option<Block> {
        let inputs: Vec<FnArg> = c.inputs.iter().map(|p| {
            let (p, t) = match p { Pat::Type(t) => ((*t.pat).clone(), (*t.ty).clone()), p => (p.clone(), parse_str("_").unwrap()) };
            FnArg::Typed(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) })
        }).collect();
        let mut sig: Signature = parse_str("fn closure()").unwrap();
        sig.inputs = inputs.into_iter().collect();
        let block = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![tail(e.clone())] } };
        let f = Fun { id: String::new(), module: self.module.clone(), owner: self.owner.clone(), trait_name: None, sig, block, generics: Default::default(), contracted: false };
        self.inline(&f, args)
    }

    /// Removes early returns of values: afterwards the value is that of the tail.
    pub fn elim(&mut self, b: Block) -> Option<Block> {
        if exits_block(&b).returns == 0 { return Some(b); }
        let mut out: Vec<Stmt> = vec![];
        let stmts = b.stmts;
        for (i, s) in stmts.iter().enumerate() {
            let e = match s { Stmt::Expr(e, _) => Some(e.clone()), _ => None };
            let n = match s { Stmt::Expr(e, _) => exits_expr(e).returns, Stmt::Local(l) => l.init.as_ref().map(|i| exits_expr(&i.expr).returns + i.diverge.as_ref().map(|d| exits_expr(&d.1).returns).unwrap_or(0)).unwrap_or(0), _ => 0 };
            if n == 0 { out.push(s.clone()); continue; }
            let rest = Block { brace_token: Default::default(), stmts: stmts[i + 1..].to_vec() };
            match (s, e) {
                (_, Some(Expr::Return(r))) => {
                    let v = r.expr.map(|e| *e).unwrap_or(ex("()"));
                    out.push(tail(v));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                (_, Some(Expr::If(x))) => {
                    let last = i + 1 == stmts.len();
                    let fix = |me: &mut Self, mut b: Block| -> Option<Block> {
                        if !diverges(&b) && !last {
                            if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() { *s = Some(Default::default()); }
                            b.stmts.extend(rest.stmts.clone());
                        }
                        me.elim(b)
                    };
                    let t = fix(self, x.then_branch.clone())?;
                    let e = match x.else_branch.clone() {
                        Some((_, e)) => match *e { Expr::Block(b) => b.block, e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] } },
                        None => Block { brace_token: Default::default(), stmts: vec![] },
                    };
                    let e = fix(self, e)?;
                    out.push(tail(Expr::If(ExprIf { attrs: vec![], if_token: Default::default(), cond: x.cond, then_branch: t, else_branch: Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e })))) })));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                (_, Some(Expr::Match(mut m))) => {
                    let last = i + 1 == stmts.len();
                    for a in &mut m.arms {
                        let mut b = match *a.body.clone() { Expr::Block(b) => b.block, e => Block { brace_token: Default::default(), stmts: vec![tail(e)] } };
                        if !diverges(&b) && !last {
                            if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() { *s = Some(Default::default()); }
                            b.stmts.extend(rest.stmts.clone());
                        }
                        let b = self.elim(b)?;
                        a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                        a.comma = Some(Default::default());
                    }
                    out.push(tail(Expr::Match(m)));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                (Stmt::Local(l), _) if l.init.as_ref().is_some_and(|i| i.diverge.is_some()) => {
                    let init = l.init.clone().unwrap();
                    let d = match *init.diverge.unwrap().1 { Expr::Block(b) => b.block, e => Block { brace_token: Default::default(), stmts: vec![tail(e)] } };
                    let (d, r) = (self.elim(d)?, self.elim(rest)?);
                    let s = format!("match {} {{ {} => {}, _ => {} }}", ts(&init.expr), ts(&l.pat), ts(&r), ts(&d));
                    out.push(tail(ex(&s)));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                (Stmt::Local(l), _) if l.init.as_ref().is_some_and(|i| i.diverge.is_none() && matches!(unparen(&i.expr), Expr::Match(_) | Expr::If(_) | Expr::Block(_))) => {
                    // let p = match e { A => return x, B => v }; rest
                    let init = unparen(&l.init.as_ref().unwrap().expr).clone();
                    let e = self.continued(init, &l.pat, &rest)?;
                    let b = self.elim(Block { brace_token: Default::default(), stmts: vec![tail(e)] })?;
                    out.extend(b.stmts);
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                (_, Some(Expr::ForLoop(f))) => {
                    // for x in s { if c { return v; } } rest
                    let rest = self.elim(rest)?;
                    if let [Stmt::Expr(Expr::If(x), _)] = &f.body.stmts[..] {
                        if x.else_branch.is_none() {
                            if let [Stmt::Expr(Expr::Return(r), _)] = &x.then_branch.stmts[..] {
                                if let Some(v) = &r.expr {
                                    let n = self.name("found");
                                    let s = format!("{{ let mut {n} = None; for {} in {} {{ if {n}.is_none() {{ if {} {{ {n} = Some({}); }} }} }} match {n} {{ Some(v__) => v__, None => {} }} }}",
                                        ts(&f.pat), ts(&f.expr), ts(&x.cond), ts(v), ts(&rest));
                                    out.push(tail(ex(&s)));
                                    return Some(Block { brace_token: Default::default(), stmts: out });
                                }
                            }
                        }
                    }
                    return self.fail("return in a loop of a helper");
                }
                _ => return self.fail("return in a helper"),
            }
        }
        Some(Block { brace_token: Default::default(), stmts: out })
    }

    /// What follows a binding, within the branches of what is bound.
    fn continued(&mut self, e: Expr, pat: &Pat, rest: &Block) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.continued(*p.expr, pat, rest),
            Expr::Block(mut b) if b.label.is_none() => {
                if diverges(&b.block) { return Some(Expr::Block(b)); }
                match b.block.stmts.pop() {
                    Some(Stmt::Expr(t, None)) => { let t = self.continued(t, pat, rest)?; b.block.stmts.push(tail(t)); Some(Expr::Block(b)) }
                    _ => self.fail("block without a value"),
                }
            }
            Expr::If(mut i) if i.else_branch.is_some() => {
                let t = self.continued(block_expr(i.then_branch.stmts), pat, rest)?;
                i.then_branch = match t { Expr::Block(b) => b.block, t => Block { brace_token: Default::default(), stmts: vec![tail(t)] } };
                let (x, e) = i.else_branch.take().unwrap();
                let e = self.continued(*e, pat, rest)?;
                i.else_branch = Some((x, Box::new(match e { Expr::If(_) | Expr::Block(_) => e, e => block_expr(vec![tail(e)]) })));
                Some(Expr::If(i))
            }
            Expr::Match(mut m) => {
                for a in &mut m.arms { a.body = Box::new(self.continued(*a.body.clone(), pat, rest)?); a.comma = Some(Default::default()); }
                Some(Expr::Match(m))
            }
            Expr::Return(_) => Some(e),
            e if call_path(&e).is_some_and(|p| p.ends_with("__panic")) => Some(e),
            e => Some(ex(&format!("{{ let {} = {}; {} }}", ts(pat), ts(&e), toks(&rest.stmts)))),
        }
    }

    // ---- results
    /// A result as its value, returning errors.
    fn rinline(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Paren(p) => self.rinline(*p.expr),
            Expr::Group(p) => self.rinline(*p.expr),
            Expr::Block(mut b) if b.label.is_none() => {
                if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                    self.enter_only(&mut b.block);
                    let t = self.rinline(t);
                    self.scopes.pop();
                    b.block.stmts.push(tail(t));
                    Expr::Block(b)
                } else { self.fail::<()>("block without a value"); Expr::Block(b) }
            }
            Expr::If(mut i) => {
                let t = self.rinline(block_expr(i.then_branch.stmts));
                if let Expr::Block(b) = t { i.then_branch = b.block; } else { i.then_branch = Block { brace_token: Default::default(), stmts: vec![tail(t)] }; }
                if let Some((x, e)) = i.else_branch { i.else_branch = Some((x, Box::new({ let e = self.rinline(*e); match e { Expr::If(_) | Expr::Block(_) => e, e => block_expr(vec![tail(e)]) } }))); }
                Expr::If(i)
            }
            Expr::Match(mut m) => {
                for a in &mut m.arms { a.body = Box::new(self.rinline(*a.body.clone())); }
                Expr::Match(m)
            }
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => e,
            Expr::Call(ref c) => {
                let p = call_path(&e).unwrap_or_default();
                if p == "Ok" || p.ends_with("Result::Ok") { return c.args[0].clone(); }
                if is_err(&e) { return ret_err(); }
                if p.ends_with("__panic") { return e; }
                if let Some(n) = simple_path(&c.func) {
                    if let Some(Local::Closure(k)) = self.lookup(&n) {
                        let b = self.inline_closure(&k, c.args.iter().cloned().collect());
                        return match b { Some(b) => self.rinline(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })), None => e };
                    }
                }
                if let Some(f) = self.find_fun(&p) {
                    let b = self.inline(&f, c.args.iter().cloned().collect());
                    let v = match b { Some(b) => self.rinline(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })), None => return e };
                    return self.typed(&f, v);
                }
                Expr::Try(ExprTry { attrs: vec![], expr: Box::new(e), question_token: Default::default() })
            }
            Expr::MethodCall(ref m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                match (name.as_str(), args.len()) {
                    ("stay", 1) if STAY.load(std::sync::atomic::Ordering::Relaxed) => {
                        if let Some(t) = simple_path(&m.receiver) {
                            let c = match unparen(&args[0]) {
                                Expr::Closure(c) => Some(c.clone()),
                                a => simple_path(a).and_then(|n| match self.lookup(&n) { Some(Local::Closure(c)) => Some(c), _ => None }),
                            };
                            if let Some(c) = c {
                                if let Some(b) = self.inline_closure(&c, vec![ex(&t)]) {
                                    let v = self.rinline(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                                    let (p, r) = (self.name("position"), self.name("result"));
                                    return ex(&format!("{{ let {p} = {t}.position()?; let {r} = {}; {t}.jump({p})?; {r} }}", ts(&v)));
                                }
                            }
                        }
                    }
                    ("transpose", 0) => return self.oinline(*m.receiver.clone()),
                    ("collect", 0) => {
                        if let Some(e) = self.collect(&m.receiver, true) { return e; }
                    }
                    ("map_err", 1) => return self.rinline(*m.receiver.clone()),
                    ("ok_or", 1) | ("ok_or_else", 1) => {
                        let n = self.name("value");
                        return ex(&format!("match {} {{ Some({n}) => {n}, None => return Err(crate::typeface::error()), }}", ts(&m.receiver)));
                    }
                    ("map", 1) | ("and_then", 1) => {
                        if let Expr::Closure(c) = unparen(&args[0]) {
                            let v = self.rinline(*m.receiver.clone());
                            if let Some(b) = self.inline_closure(&c.clone(), vec![v]) {
                                let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                                return if name == "map" { b } else { self.rinline(b) };
                            }
                        }
                    }
                    _ => {
                        if let Some(f) = self.find_method(&m.receiver, &name, args.len()) {
                            let mut all = vec![*m.receiver.clone()]; all.extend(args);
                            let b = self.inline(&f, all);
                            return match b { Some(b) => self.rinline(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })), None => e };
                        }
                    }
                }
                Expr::Try(ExprTry { attrs: vec![], expr: Box::new(e), question_token: Default::default() })
            }
            e => Expr::Try(ExprTry { attrs: vec![], expr: Box::new(e), question_token: Default::default() }),
        }
    }

    /// An option of a result as an option of its value, returning errors.
    fn oinline(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Paren(p) => self.oinline(*p.expr),
            Expr::If(mut i) => {
                i.then_branch = Block { brace_token: Default::default(), stmts: vec![tail(self.oinline(block_expr(i.then_branch.stmts)))] };
                if let Some((x, e)) = i.else_branch { let e = self.oinline(*e); i.else_branch = Some((x, Box::new(match e { Expr::If(_) | Expr::Block(_) => e, e => block_expr(vec![tail(e)]) }))); }
                Expr::If(i)
            }
            Expr::Match(mut m) => { for a in &mut m.arms { a.body = Box::new(self.oinline(*a.body.clone())); } Expr::Match(m) }
            Expr::Block(mut b) if b.label.is_none() => {
                if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() { let t = self.oinline(t); b.block.stmts.push(tail(t)); }
                Expr::Block(b)
            }
            Expr::MethodCall(ref m) => {
                let name = m.method.to_string();
                if (name == "map" || name == "then") && m.args.len() == 1 {
                    if let Expr::Closure(c) = unparen(&m.args[0]) {
                        let n = self.name("value");
                        let args = if name == "map" { vec![ex(&n)] } else { vec![] };
                        if let Some(b) = self.inline_closure(&c.clone(), args) {
                            let v = self.rinline(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                            return if name == "map" {
                                ex(&format!("match {} {{ Some({n}) => Some({}), None => None, }}", ts(&m.receiver), ts(&v)))
                            } else {
                                ex(&format!("if {} {{ Some({}) }} else {{ None }}", ts(&m.receiver), ts(&v)))
                            };
                        }
                    }
                }
                self.fail::<()>("transpose");
                e
            }
            Expr::Path(ref p) if p.path.is_ident("None") => e,
            Expr::Call(ref c) if call_path(&e).as_deref() == Some("Some") => {
                let v = self.rinline(c.args[0].clone());
                ex(&format!("Some({})", ts(&v)))
            }
            e => { self.fail::<()>("transpose"); e }
        }
    }

    // ---- iterators
    pub fn source(&mut self, e: &Expr, in_for: bool) -> Option<Src> {
        let e = unparen(e).clone();
        match &e {
            Expr::Range(r) => {
                let (lo, hi) = (r.start.clone()?, r.end.clone()?);
                if matches!(r.limits, RangeLimits::Closed(_)) { return None; }
                let idx = self.name("i");
                let start = ts(&*lo);
                if start.trim_end_matches("usize").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64").trim() != "0" {
                    // From zero.
                    let (p, q) = (self.name("from"), self.name("to"));
                    let setup = vec![parse_str_stmt(&format!("let {p} = {start};")), parse_str_stmt(&format!("let {q} = {};", ts(&*hi)))];
                    return Some(Src { setup, lo: ex("0"), hi: ex(&format!("(if {p} < {q} {{ {q} - {p} }} else {{ 0 }})")), elem: Elem::Val(ex(&format!("({p} + {idx})"))), idx, body: vec![], by_len: false });
                }
                Some(Src { setup: vec![], lo: *lo, hi: *hi, elem: Elem::Val(ex(&idx)), idx, body: vec![], by_len: false })
            }
            Expr::Reference(r) if in_for => self.over(&r.expr, true),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                match (name.as_str(), a.len()) {
                    ("iter", 0) => self.over(&m.receiver, true),
                    ("into_iter", 0) => match unparen(&m.receiver) {
                        Expr::Reference(r) => self.over(&r.expr, true),
                        Expr::Range(_) => self.source(&m.receiver, false),
                        Expr::MethodCall(_) => self.source(&m.receiver, false),
                        r => self.over(&r.clone(), false),
                    },
                    ("enumerate", 0) => {
                        let mut s = self.source(&m.receiver, false)?;
                        let zero = ts(&s.lo).trim_end_matches("usize").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64").trim() == "0";
                        if !zero { return None; }
                        let i = if s.by_len { ex(&s.idx) } else { ex(&format!("({} as usize)", s.idx)) };
                        s.elem = Elem::Tuple(vec![Elem::Val(i), s.elem]);
                        Some(s)
                    }
                    ("copied", 0) | ("cloned", 0) => {
                        let mut s = self.source(&m.receiver, false)?;
                        s.elem = match s.elem { Elem::Val(e) => Elem::Val(strip_ref(&e)), t => t };
                        Some(s)
                    }
                    ("take", 1) => {
                        let mut s = self.source(&m.receiver, false)?;
                        if !s.by_len { return None; }
                        let n = self.name("n");
                        s.setup.push(parse_str_stmt(&format!("let {n} = {};", ts(&a[0]))));
                        s.hi = ex(&format!("(if {n} < {} {{ {n} }} else {{ {} }})", ts(&s.hi), ts(&s.hi)));
                        Some(s)
                    }
                    ("zip", 1) => {
                        let mut s = self.source(&m.receiver, false)?;
                        let t = self.source(&a[0], true)?;
                        if !(s.by_len && t.by_len) { return None; }
                        s.setup.extend(t.setup);
                        s.hi = ex(&format!("(if {} < {} {{ {} }} else {{ {} }})", ts(&s.hi), ts(&t.hi), ts(&s.hi), ts(&t.hi)));
                        let mut map = HashMap::new();
                        map.insert(t.idx.clone(), s.idx.clone());
                        s.body.extend(t.body.into_iter().map(|mut x| { Renamer { map: map.clone() }.visit_stmt_mut(&mut x); x }));
                        let te = rename_elem(t.elem, &map);
                        s.elem = Elem::Tuple(vec![s.elem, te]);
                        Some(s)
                    }
                    ("map", 1) => {
                        let mut s = self.source(&m.receiver, false)?;
                        let c = match unparen(&a[0]) {
                            Expr::Closure(c) => c.clone(),
                            x => match simple_path(x).and_then(|n| self.lookup(&n)) { Some(Local::Closure(c)) => c, _ => return None },
                        };
                        let (b, _) = self.apply(&c, s.elem, false)?;
                        s.elem = Elem::Val(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                        Some(s)
                    }
                    _ => None,
                }
            }
            Expr::Path(_) | Expr::Field(_) if in_for => { let by_ref = self.by_ref; self.over(&e, by_ref) }
            _ => None,
        }
    }

    fn over(&mut self, place: &Expr, by_ref: bool) -> Option<Src> {
        let mut place = unparen(place).clone();
        while let Expr::Reference(r) = place { place = *r.expr; }
        let mut setup = vec![];
        if let Expr::Index(i) = unparen(&place) {
            if let Expr::Range(r) = unparen(&i.index) {
                if matches!(r.limits, RangeLimits::Closed(_)) || !pure(&i.expr) { return None; }
                let (p, lo, hi, idx) = (ts(&i.expr), self.name("lo"), self.name("hi"), self.name("i"));
                let l = r.start.as_ref().map(|e| ts(e)).unwrap_or("0".into());
                let h = r.end.as_ref().map(|e| ts(e)).unwrap_or(format!("{p}.len()"));
                setup.push(parse_str_stmt(&format!("let {lo}: usize = {l};")));
                setup.push(parse_str_stmt(&format!("let {hi}: usize = {h};")));
                setup.push(parse_str_stmt(&format!("crate::typeface::__within({lo}, {hi}, {p}.len());")));
                let amp = if by_ref { "&" } else { "" };
                return Some(Src { setup, lo: ex("0usize"), hi: ex(&format!("({hi} - {lo})")), elem: Elem::Val(ex(&format!("{amp}{p}[{lo} + {idx}]"))), idx, body: vec![], by_len: true });
            }
        }
        fn is_place(e: &Expr) -> bool { match unparen(e) { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), Expr::Index(i) => is_place(&i.expr), _ => false } }
        if !is_place(&place) {
            let n = self.name("source");
            setup.push(parse_str_stmt(&format!("let {n} = {};", ts(&place))));
            place = ex(&n);
        }
        if let Expr::Index(i) = unparen(&place) { if matches!(unparen(&i.index), Expr::Range(_)) { return None; } }
        let idx = self.name("i");
        let amp = if by_ref { "&" } else { "" };
        Some(Src { setup, lo: ex("0usize"), hi: ex(&format!("{}.len()", ts(&place))), elem: Elem::Val(ex(&format!("{amp}{}[{idx}]", ts(&place)))), idx, body: vec![], by_len: true })
    }

    /// The body of a closure applied to an element.
    fn apply(&mut self, c: &ExprClosure, elem: Elem, extra_ref: bool) -> Option<(Block, ())> {
        let mut binders = Binders { names: Default::default() };
        let mut c = c.clone();
        for p in c.inputs.iter_mut() { binders.visit_pat_mut(p); }
        binders.visit_expr_mut(&mut c.body);
        let map: HashMap<_, _> = binders.names.iter().map(|n| (n.clone(), self.name(n))).collect();
        let mut r = Renamer { map };
        let mut pat = c.inputs.first()?.clone();
        if let Pat::Type(t) = pat { pat = *t.pat; }
        r.visit_pat_mut(&mut pat);
        r.visit_expr_mut(&mut c.body);
        let mut stmts = vec![];
        self.bind(&pat, elem, extra_ref, &mut stmts)?;
        let mut block = match *c.body { Expr::Block(b) if b.label.is_none() => b.block, e => Block { brace_token: Default::default(), stmts: vec![tail(e)] } };
        self.prep(&mut block);
        let mut block = self.elim(block)?;
        stmts.append(&mut block.stmts);
        Some((Block { brace_token: Default::default(), stmts }, ()))
    }

    fn bind(&mut self, pat: &Pat, elem: Elem, extra_ref: bool, out: &mut Vec<Stmt>) -> Option<()> {
        match (pat, elem) {
            (Pat::Wild(_), Elem::Val(_)) => Some(()),
            (Pat::Wild(_), _) => Some(()),
            (Pat::Paren(p), e) => self.bind(&p.pat, e, extra_ref, out),
            (Pat::Type(p), e) => self.bind(&p.pat, e, extra_ref, out),
            (Pat::Ident(i), Elem::Val(e)) => {
                let amp = if extra_ref { "&" } else { "" };
                let m = if i.mutability.is_some() { "mut " } else { "" };
                out.push(parse_str_stmt(&format!("let {m}{} = {amp}{};", i.ident, ts(&e))));
                Some(())
            }
            (Pat::Reference(r), e) => {
                if extra_ref { return self.bind(&r.pat, e, false, out); }
                match e { Elem::Val(e) => self.bind(&r.pat, Elem::Val(strip_ref(&e)), false, out), _ => None }
            }
            (Pat::Tuple(t), Elem::Tuple(es)) => {
                if t.elems.len() != es.len() { return None; }
                for (p, e) in t.elems.iter().zip(es) { self.bind(p, e, extra_ref, out)?; }
                Some(())
            }
            (p, Elem::Val(e)) => { out.push(parse_str_stmt(&format!("let {} = {};", ts(p), ts(&e)))); Some(()) }
            (Pat::Ident(i), t @ Elem::Tuple(_)) => {
                let e = elem_expr(&t);
                out.push(parse_str_stmt(&format!("let {} = {};", i.ident, ts(&e))));
                Some(())
            }
            _ => None,
        }
    }

    fn collect(&mut self, recv: &Expr, result: bool) -> Option<Expr> {
        let s = self.source(recv, false)?;
        let v = self.name("values");
        let e = elem_expr(&s.elem);
        let e = if result { self.rinline(e) } else { e };
        // The statements of the closure before its value go into the loop.
        let (pre, e) = split_block(e);
        let (setup, lo, hi, idx) = (toks(&s.setup), ts(&s.lo), ts(&s.hi), &s.idx);
        Some(ex(&format!("{{ {setup} let mut {v} = Vec::new(); for {idx} in {lo}..{hi} {{ {} {} {v}.push({}); }} {v} }}", toks(&s.body), toks(&pre), ts(&e))))
    }

    fn consumer(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            // The first of what passes a filter is found.
            ("next", 0) => {
                let inner = match unparen(&m.receiver) { Expr::MethodCall(i) => i.clone(), _ => return None };
                let (kind, a) = (inner.method.to_string(), inner.args.first().map(ts).unwrap_or_default());
                let new = match (kind.as_str(), unparen(&inner.receiver)) {
                    ("filter", r) => ex(&format!("{}.find({a})", ts(r))),
                    ("filter_map", r) => ex(&format!("{}.find_map({a})", ts(r))),
                    ("map", Expr::MethodCall(f)) if f.method == "filter" => ex(&format!("{}.find({}).map({a})", ts(&f.receiver), ts(&f.args[0]))),
                    _ => return None,
                };
                Some(new)
            }
            ("is_some", 0) | ("is_none", 0) => {
                let inner = match unparen(&m.receiver) { Expr::MethodCall(i) if i.method == "find" || i.method == "position" => i.clone(), _ => return None };
                if inner.method == "find" {
                    // The closure of find takes a reference to the item.
                    return None;
                }
                Some(ex(&format!("{}{}.any({})", if name == "is_none" { "!" } else { "" }, ts(&inner.receiver), ts(&inner.args[0]))))
            }
            ("find_map", 1) => {
                let c = self.closure_arg(&m.args[0])?;
                let s = self.source(&m.receiver, false)?;
                let t = self.source(&m.receiver, false)?;
                let f = self.name("found");
                let (setup, lo, hi, idx) = (toks(&s.setup), ts(&s.lo), ts(&s.hi), s.idx.clone());
                let body = toks(&s.body);
                let (b, _) = self.apply(&c, s.elem, false)?;
                let (pre, v) = split_block(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                let (cond, _) = option_if(&v)?;
                let mut map = HashMap::new();
                let j = self.name("j");
                map.insert(t.idx.clone(), j.clone());
                let again: Vec<Stmt> = t.body.into_iter().map(|mut x| { Renamer { map: map.clone() }.visit_stmt_mut(&mut x); x }).collect();
                let (b, _) = self.apply(&c, rename_elem(t.elem, &map), false)?;
                let (qre, v) = split_block(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                let (_, value) = option_if(&v)?;
                Some(ex(&format!("{{ {setup} let mut {f} = None; for {idx} in {lo}..{hi} {{ if {f}.is_none() {{ {body} {} if {cond} {{ {f} = Some({idx}); }} }} }} match {f} {{ Some({j}) => {{ {} {} Some({value}) }} None => None, }} }}", toks(&pre), toks(&again), toks(&qre))))
            }
            ("for_each", 1) => {
                let c = self.closure_arg(&m.args[0])?;
                if c.inputs.len() != 1 || exits_expr(&c.body).any_return > 0 { return None; }
                Some(ex(&format!("for {} in {} {{ {}; }}", ts(&c.inputs[0]), ts(&m.receiver), ts(&c.body))))
            }
            ("contains", 1) => {
                if let Expr::Range(r) = unparen(&m.receiver) {
                    let x = match unparen(&m.args[0]) { Expr::Reference(x) => ts(&x.expr), x => format!("*({})", ts(x)) };
                    let mut cs = vec![];
                    if let Some(l) = &r.start { cs.push(format!("{} <= {x}", ts(l))); }
                    if let Some(h) = &r.end { cs.push(format!("{x} {} {}", if matches!(r.limits, RangeLimits::Closed(_)) { "<=" } else { "<" }, ts(h))); }
                    if cs.is_empty() { return None; }
                    return Some(ex(&format!("({})", cs.join(" && "))));
                }
                let x = self.name("item");
                let y = self.name("needle");
                Some(ex(&format!("{{ let {y} = {}; {}.iter().any(|{x}| *{x} == *{y}) }}", ts(&m.args[0]), ts(&m.receiver))))
            }
            ("collect", 0) => self.collect(&m.receiver, false),
            ("any", 1) | ("all", 1) => {
                let c = self.closure_arg(&m.args[0])?;
                let s = self.source(&m.receiver, false)?;
                let f = self.name("found");
                let (setup, lo, hi, idx) = (toks(&s.setup), ts(&s.lo), ts(&s.hi), s.idx.clone());
                let body = toks(&s.body);
                let (b, _) = self.apply(&c, s.elem, false)?;
                let (pre, cond) = split_block(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                let (bang, res) = if name == "any" { ("", f.clone()) } else { ("!", format!("!{f}")) };
                Some(ex(&format!("{{ {setup} let mut {f} = false; for {idx} in {lo}..{hi} {{ if !{f} {{ {body} {} if {bang}({}) {{ {f} = true; }} }} }} {res} }}", toks(&pre), ts(&cond))))
            }
            ("find", 1) | ("position", 1) => {
                let c = self.closure_arg(&m.args[0])?;
                let s = self.source(&m.receiver, false)?;
                let t = self.source(&m.receiver, false)?;
                let f = self.name("found");
                let (setup, lo, hi, idx) = (toks(&s.setup), ts(&s.lo), ts(&s.hi), s.idx.clone());
                let body = toks(&s.body);
                let (b, _) = self.apply(&c, s.elem, name == "find")?;
                let (pre, cond) = split_block(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                let res = if name == "position" {
                    if s.by_len { f.clone() } else { return None }
                } else {
                    let mut map = HashMap::new();
                    let j = self.name("j");
                    map.insert(t.idx.clone(), j.clone());
                    let e = elem_expr(&rename_elem(t.elem, &map));
                    format!("match {f} {{ Some({j}) => Some({}), None => None, }}", ts(&e))
                };
                Some(ex(&format!("{{ {setup} let mut {f} = None; for {idx} in {lo}..{hi} {{ if {f}.is_none() {{ {body} {} if {} {{ {f} = Some({idx}); }} }} }} {res} }}", toks(&pre), ts(&cond))))
            }
            _ => None,
        }
    }

    fn closure_arg(&self, e: &Expr) -> Option<ExprClosure> {
        match unparen(e) {
            Expr::Closure(c) => Some(c.clone()),
            x => match simple_path(x).and_then(|n| self.lookup(&n)) { Some(Local::Closure(c)) => Some(c), _ => None },
        }
    }

    /// Collects the local functions and closures of a block.
    fn enter(&mut self, b: &mut Block) {
        let mut scope = HashMap::new();
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Fn(f)) => {
                scope.insert(f.sig.ident.to_string(), Local::Fun(Fun { id: String::new(), module: self.module.clone(), owner: self.owner.clone(), trait_name: None, sig: f.sig.clone(), block: (*f.block).clone(), generics: Default::default(), contracted: false }));
                false
            }
            Stmt::Local(l) => {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = unparen(&init.expr) { scope.insert(i.ident.to_string(), Local::Closure(c.clone())); return false; }
                }
                true
            }
            _ => true,
        });
        self.scopes.push(scope);
    }

    pub fn enter_only(&mut self, b: &mut Block) {
        let items: Vec<Stmt> = b.stmts.clone();
        self.enter(&mut Block { brace_token: Default::default(), stmts: items });
    }
    pub fn leave(&mut self, _: &mut Block) { self.scopes.pop(); }

    /// The value of a function that returns a result, without intermediate results.
    pub fn tail_result(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            let plain = matches!(unparen(e), Expr::Call(_)) && matches!(call_path(unparen(e)).as_deref(), Some("Ok") | Some("Err"));
            if plain || matches!(e, Expr::Return(_)) { return; }
            let mut inner = std::mem::replace(e, ex("()"));
            let block = Block { brace_token: Default::default(), stmts: vec![] };
            let _ = block;
            // Calls of functions under contract deliver their result as is.
            let v = self.rinline(inner.clone());
            inner = match v { Expr::Try(t) => *t.expr, v => ex(&format!("Ok({})", ts(&v))) };
            *e = inner;
        }
    }
}

fn parse_pat(s: &str) -> Pat {
    Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new(s, Span::call_site()), subpat: None })
}

pub fn parse_str_stmt(s: &str) -> Stmt {
    let b: Block = parse_str(&format!("{{ {s} }}")).unwrap_or_else(|e| panic!("{s}: {e}"));
    b.stmts.into_iter().next().unwrap()
}

/// { let p = C; if p { .. } else { .. } } as { if C { .. } else { .. } }, and likewise for matches.
fn conditional(b: &mut Vec<Stmt>) {
    let new = match &b[..] {
        [Stmt::Local(syn::Local { pat, init: Some(x), .. }), Stmt::Expr(Expr::If(i), None)] if x.diverge.is_none() => {
            let p = match pat { Pat::Type(t) => ts(&t.pat), p => ts(p) };
            let c = ts(&x.expr);
            let other = i.else_branch.as_ref().map(|(_, e)| ts(e)).unwrap_or_default();
            if ts(&i.cond) != p || mentions(&ts(&i.then_branch), &p) || mentions(&other, &p) || c.contains('{') { return; }
            let mut i = i.clone();
            i.cond = x.expr.clone();
            Stmt::Expr(Expr::If(i), None)
        }
        // Arms that bind the name again do not mean the variable.
        [Stmt::Local(syn::Local { pat, init: Some(x), .. }), Stmt::Expr(Expr::Match(m), None)] if x.diverge.is_none() => {
            let p = match pat { Pat::Type(t) => ts(&t.pat), p => ts(p) };
            let other = m.arms.iter().any(|a| !mentions(&ts(&a.pat), &p) && (mentions(&ts(&a.body), &p) || a.guard.as_ref().is_some_and(|g| mentions(&ts(&g.1), &p))));
            if simple_path(&m.expr).as_deref() != Some(&p) || other || simple_path(&x.expr).is_none() { return; }
            let mut m = m.clone();
            m.expr = x.expr.clone();
            Stmt::Expr(Expr::Match(m), None)
        }
        _ => return,
    };
    *b = vec![new];
}

pub fn toks(s: &[Stmt]) -> String { s.iter().map(ts).collect::<Vec<_>>().join(" ") }

fn strip_ref(e: &Expr) -> Expr {
    match unparen(e) { Expr::Reference(r) => (*r.expr).clone(), e => ex(&format!("*({})", ts(e))) }
}

fn rename_elem(e: Elem, map: &HashMap<String, String>) -> Elem {
    match e {
        Elem::Val(mut e) => { Renamer { map: map.clone() }.visit_expr_mut(&mut e); Elem::Val(e) }
        Elem::Tuple(t) => Elem::Tuple(t.into_iter().map(|e| rename_elem(e, map)).collect()),
    }
}

/// A test of bits of a word of flags: the word, the mask, and whether they are to be set.
fn bit_test(b: &ExprBinary) -> Option<(String, u64, bool)> {
    fn number(e: &Expr) -> Option<u64> {
        match unparen(e) {
            Expr::Lit(l) => match &l.lit { Lit::Int(i) => i.base10_parse().ok(), _ => None },
            Expr::Binary(b) if matches!(b.op, BinOp::Shl(_)) => number(&b.left)?.checked_shl(number(&b.right)? as u32),
            Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_)) => Some(number(&b.left)? | number(&b.right)?),
            _ => None,
        }
    }
    fn masked(e: &Expr) -> Option<(String, u64)> {
        let Expr::Binary(b) = unparen(e) else { return None };
        if !matches!(b.op, BinOp::BitAnd(_)) { return None; }
        for (x, m) in [(&b.left, &b.right), (&b.right, &b.left)] {
            if let (Expr::Field(f), Some(m)) = (unparen(x), number(m)) {
                if matches!(&f.member, Member::Unnamed(i) if i.index == 0) && pure(x) && m < 65536 { return Some((ts(unparen(x)), m)); }
            }
        }
        None
    }
    let (left, right) = (masked(&b.left), number(&b.right));
    if let (Some((x, m)), Some(n)) = (left, right) {
        return match b.op {
            BinOp::Gt(_) | BinOp::Ne(_) if n == 0 => Some((x, m, true)),
            BinOp::Ge(_) if n == 1 => Some((x, m, true)),
            BinOp::Eq(_) if n == 0 => Some((x, m, false)),
            BinOp::Lt(_) if n == 1 => Some((x, m, false)),
            BinOp::Eq(_) if n == m && m.is_power_of_two() => Some((x, m, true)),
            BinOp::Ne(_) if n == m && m.is_power_of_two() => Some((x, m, false)),
            _ => None,
        };
    }
    if let (Some(n), Some((x, m))) = (number(&b.left), masked(&b.right)) {
        return match b.op {
            BinOp::Lt(_) | BinOp::Ne(_) if n == 0 => Some((x, m, true)),
            BinOp::Eq(_) if n == 0 => Some((x, m, false)),
            _ => None,
        };
    }
    None
}

/// Whether an expression is a condition by its form.
pub fn logical(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && logical(&u.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Match(m) => bool_match(m).is_some() || m.arms.iter().all(|a| matches!(&*a.body, Expr::Lit(l) if matches!(l.lit, Lit::Bool(_)))),
        Expr::MethodCall(m) => (m.method.to_string().starts_with("is_") || m.method.to_string().starts_with("has_")) && m.args.is_empty(),
        _ => false,
    }
}

/// Whether a pattern takes a reference apart.
fn refers(p: &Pat) -> bool {
    match p { Pat::Reference(_) => true, Pat::Paren(p) => refers(&p.pat), _ => false }
}

/// An option that is present under a condition: the condition and the value.
fn option_if(e: &Expr) -> Option<(String, String)> {
    fn inner(b: Expr) -> Option<String> {
        let (pre, v) = split_block(b);
        match v { Expr::Call(c) if call_path(&Expr::Call(c.clone())).is_some_and(|p| p == "Some" || p.ends_with("Option::Some")) => Some(format!("{{ {} {} }}", toks(&pre), ts(&c.args[0]))), _ => None }
    }
    fn none(e: &Expr) -> bool { let (pre, v) = split_block(e.clone()); pre.is_empty() && simple_path(&v).is_some_and(|p| p == "None" || p.ends_with("Option::None")) }
    match unparen(e) {
        Expr::If(i) => {
            let other = &*i.else_branch.as_ref()?.1;
            let then = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            if none(other) { return Some((ts(&i.cond), inner(then)?)); }
            if none(&then) { return Some((format!("!({})", ts(&i.cond)), inner(other.clone())?)); }
            None
        }
        Expr::MethodCall(m) if m.method == "then_some" && m.args.len() == 1 => Some((ts(&m.receiver), ts(&m.args[0]))),
        Expr::MethodCall(m) if m.method == "then" && m.args.len() == 1 => match unparen(&m.args[0]) {
            Expr::Closure(c) if c.inputs.is_empty() => Some((ts(&m.receiver), ts(&c.body))),
            _ => None,
        },
        _ => None,
    }
}

fn elem_expr(e: &Elem) -> Expr {
    match e {
        Elem::Val(e) => e.clone(),
        Elem::Tuple(t) => ex(&format!("({})", t.iter().map(|e| ts(&elem_expr(e))).collect::<Vec<_>>().join(", "))),
    }
}

fn split_block(e: Expr) -> (Vec<Stmt>, Expr) {
    match e {
        Expr::Block(mut b) if b.label.is_none() => match b.block.stmts.pop() {
            Some(Stmt::Expr(t, None)) => {
                let (pre, t) = split_block(t);
                b.block.stmts.extend(pre);
                (b.block.stmts, t)
            }
            Some(s) => { b.block.stmts.push(s); (b.block.stmts, ex("()")) }
            None => (vec![], ex("()")),
        },
        Expr::Paren(p) => split_block(*p.expr),
        e => (vec![], e),
    }
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(e, _)) => call_path(e).is_some_and(|p| p.ends_with("__panic")),
        _ => false,
    }
}

/// match c { true => .., false => .. } as a condition.
fn bool_match(m: &ExprMatch) -> Option<Expr> {
    fn lit(p: &Pat) -> Option<bool> {
        match p { Pat::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value), Pat::Paren(p) => lit(&p.pat), _ => None }
    }
    if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
    let first = lit(&m.arms[0].pat)?;
    match (&m.arms[1].pat, lit(&m.arms[1].pat)) { (_, Some(b)) if b != first => {} (Pat::Wild(_), _) => {} _ => return None }
    let (a, b) = if first { (0, 1) } else { (1, 0) };
    let body = |i: usize| match &*m.arms[i].body { Expr::Block(b) if b.label.is_none() => ts(&b.block), e => format!("{{ {} }}", ts(e)) };
    Some(ex(&format!("if {} {} else {}", ts(&m.expr), body(a), body(b))))
}

/// A constructor or a function as an argument as a closure.
fn eta(m: &mut ExprMethodCall) {
    let at = match m.method.to_string().as_str() { "map" | "and_then" if m.args.len() == 1 => 0, "map_or" if m.args.len() == 2 => 1, _ => return };
    if let Expr::Path(p) = unparen(&m.args[at]) {
        let last = p.path.segments.last().unwrap().ident.to_string();
        if p.path.segments.len() > 1 || last.starts_with(|c: char| c.is_uppercase()) {
            m.args[at] = ex(&format!("|value__e| {}(value__e)", ts(p)));
        }
    }
}

/// if c { continue; } .. as if !c { .. }.
fn skips(b: &mut Block) {
    let is_continue = |s: &Stmt| matches!(s, Stmt::Expr(Expr::Continue(c), _) if c.label.is_none());
    for i in 0..b.stmts.len() {
        let new = match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), _) if f.then_branch.stmts.last().is_some_and(is_continue) => {
                let n = f.then_branch.stmts.len() - 1;
                let mut rest: Vec<Stmt> = vec![];
                if let Some((_, e)) = &f.else_branch { rest.push(semi((**e).clone())); }
                rest.extend(b.stmts[i + 1..].iter().cloned());
                let mut rest = Block { brace_token: Default::default(), stmts: rest };
                skips(&mut rest);
                if n == 0 {
                    let c = match unparen(&f.cond) {
                        Expr::Let(_) => None,
                        Expr::Binary(x) if matches!(x.op, BinOp::Ne(_)) => Some(format!("{} == {}", ts(&x.left), ts(&x.right))),
                        Expr::Binary(x) if matches!(x.op, BinOp::Eq(_)) => Some(format!("{} != {}", ts(&x.left), ts(&x.right))),
                        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => Some(ts(expr)),
                        c => Some(format!("!({})", ts(c))),
                    };
                    match c {
                        Some(c) => Some(ex(&format!("if {c} {}", ts(&rest)))),
                        None => Some(ex(&format!("if {} {{ }} else {}", ts(&f.cond), ts(&rest)))),
                    }
                } else {
                    Some(ex(&format!("if {} {{ {} }} else {}", ts(&f.cond), toks(&f.then_branch.stmts[..n]), ts(&rest))))
                }
            }
            s if is_continue(s) => { b.stmts.truncate(i); return; }
            _ => None,
        };
        if let Some(e) = new {
            b.stmts.truncate(i);
            b.stmts.push(tail(e));
            return;
        }
    }
}

fn find_array(e: &Expr) -> Option<Vec<Expr>> {
    struct F(Option<Vec<Expr>>);
    impl VisitMut for F {
        fn visit_expr_array_mut(&mut self, a: &mut ExprArray) { if self.0.is_none() { self.0 = Some(a.elems.iter().cloned().collect()); } }
    }
    let mut f = F(None);
    f.visit_expr_mut(&mut e.clone());
    f.0
}

pub fn pure(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) && pure(&u.expr),
        Expr::Cast(c) => pure(&c.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "clone" | "is_empty" | "is_some" | "is_none") && m.args.is_empty() && pure(&m.receiver),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_)) && pure(&b.left) && pure(&b.right)
            || match (unparen(&b.left), unparen(&b.right)) { (Expr::Lit(_), Expr::Lit(_)) => matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)), _ => false },
        Expr::Block(b) => b.block.stmts.iter().all(|s| noop(s) || matches!(s, Stmt::Expr(e, None) if pure(e))),
        Expr::If(i) => pure(&i.cond) && i.then_branch.stmts.iter().all(noop) && i.else_branch.as_ref().map_or(true, |e| pure(&e.1)),
        Expr::Call(c) => {
            let p = call_path(e).unwrap_or_default();
            matches!(p.rsplit("::").next().unwrap_or(""), "drop" | "identity" | "black_box") && c.args.iter().all(|a| pure(a) && !matches!(unparen(a), Expr::Path(_)))
        }
        _ => false,
    }
}

/// A statement without effect.
fn noop(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Wild(_), Some(i)) => i.diverge.is_none() && pure(&i.expr) && !matches!(unparen(&i.expr), Expr::Path(_)) || l.init.as_ref().is_some_and(|i| i.diverge.is_none() && matches!(unparen(&i.expr), Expr::Reference(_)) && pure(&i.expr)),
            (Pat::Ident(p), Some(i)) => p.ident.to_string().starts_with('_') && i.diverge.is_none() && pure(&i.expr) && !matches!(unparen(&i.expr), Expr::Path(_)) && p.mutability.is_none(),
            (Pat::Type(t), Some(i)) => matches!(&*t.pat, Pat::Wild(_)) && i.diverge.is_none() && pure(&i.expr),
            _ => false,
        },
        Stmt::Expr(Expr::Block(b), None) => b.block.stmts.is_empty(),
        Stmt::Expr(e, Some(_)) => !matches!(e, Expr::Path(_)) && pure(e),
        Stmt::Item(Item::Const(c)) => c.ident == "_",
        Stmt::Macro(m) => m.mac.path.is_ident("debug_assert") && false,
        _ => false,
    }
}

fn strip_attrs(e: &mut Expr) {
    macro_rules! s { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clear(),)* _ => {} } } }
    s!(Paren, Call, MethodCall, Block, If, Match, ForLoop, While, Tuple, Struct, Path, Assign, Binary, Macro, Return, Try, Field, Index, Lit, Unary, Reference, Cast, Closure, Array, Range, Let);
}

/// Drops tapes from turbofish.
pub struct TapeArgs { pub tapes: HashSet<String>, pub drop: bool }
impl VisitMut for TapeArgs {
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        let args: Vec<_> = a.args.iter().filter(|x| match x {
            GenericArgument::Type(t) => !self.tapes.contains(ts(t).trim()),
            GenericArgument::Lifetime(_) => false,
            _ => true,
        }).cloned().collect();
        a.args = args.into_iter().collect();
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if let PathArguments::AngleBracketed(a) = &s.arguments { if a.args.is_empty() { s.arguments = PathArguments::None; } }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if m.turbofish.as_ref().is_some_and(|t| t.args.is_empty()) { m.turbofish = None; }
    }
}

// ---- the main pass
impl VisitMut for Norm<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.enter(b);
        while_loops(b);
        while_pushes(b);
        for s in &mut b.stmts { self.visit_stmt_mut(s); }
        self.scopes.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.depth > 40 { self.fail::<()>("too deep"); return; }
        self.depth += 1;
        self.expr(e);
        self.depth -= 1;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl Norm<'_> {
    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) if self.ret_option => {
                let v = self.name("value");
                *e = ex(&format!("match {} {{ Some({v}) => {v}, None => return None, }}", ts(&t.expr)));
                return self.visit_expr_mut(e);
            }
            Expr::Try(t) => {
                let inner = std::mem::replace(&mut *t.expr, ex("()"));
                let mut new = self.rinline(inner);
                if let Expr::Try(t) = &mut new {
                    // A call under contract: only its parts are left.
                    visit_mut::visit_expr_mut(self, &mut t.expr);
                    self.fix_call(&mut t.expr);
                    *e = new;
                } else {
                    *e = new;
                    self.visit_expr_mut(e);
                }
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    if self.ret_result && !matches!(call_path(unparen(x)).as_deref(), Some("Ok") | Some("Err")) {
                        let v = self.rinline((**x).clone());
                        **x = match v { Expr::Try(t) => *t.expr, v => ex(&format!("Ok({})", ts(&v))) };
                    }
                }
            }
            Expr::Call(c) => {
                if let Some(p) = call_path(&Expr::Call(c.clone())) {
                    if let Some(n) = simple_path(&c.func) {
                        if let Some(Local::Closure(k)) = self.lookup(&n) {
                            if let Some(b) = self.inline_closure(&k, c.args.iter().cloned().collect()) {
                                if exits_block(&b).tries > 0 { self.fail::<()>("result of a closure"); }
                                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                    if let Some(f) = self.find_fun(&p) {
                        if let Some(b) = self.inline(&f, c.args.iter().cloned().collect()) {
                            let x = exits_block(&b);
                            if x.tries > 0 || x.any_return > 0 { self.fail::<()>(format!("result of {p}")); return; }
                            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                            return self.visit_expr_mut(e);
                        }
                    }
                    if p.ends_with("mem::forget") && c.args.len() == 1 {
                        if let Expr::Call(r) = unparen(&c.args[0]) {
                            if call_path(&Expr::Call(r.clone())).is_some_and(|p| p.ends_with("mem::replace")) {
                                if let Expr::Reference(x) = unparen(&r.args[0]) {
                                    *e = ex(&format!("{} = {}", ts(&x.expr), ts(&r.args[1])));
                                    return self.visit_expr_mut(e);
                                }
                            }
                        }
                    }
                    if c.args.is_empty() {
                        let new = match p.replace(' ', "").as_str() {
                            "Vec::default" | "std::vec::Vec::default" => Some("Vec::new()"),
                            "u8::default" => Some("0u8"), "u16::default" => Some("0u16"), "u32::default" => Some("0u32"), "u64::default" => Some("0u64"),
                            "usize::default" => Some("0usize"), "i16::default" => Some("0i16"), "bool::default" => Some("false"), "Option::default" => Some("None"),
                            _ => None,
                        };
                        if let Some(new) = new { *e = ex(new); return; }
                    }
                    if matches!(p.as_str(), "u64::from" | "u32::from" | "usize::from" | "u16::from" | "u8::from" | "i32::from") && c.args.len() == 1 && logical(&c.args[0]) {
                        let t = p.split("::").next().unwrap();
                        *e = ex(&format!("(if {} {{ 1{t} }} else {{ 0{t} }})", ts(&c.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    if (p == "min" || p == "max" || p.ends_with("cmp::min") || p.ends_with("cmp::max")) && c.args.len() == 2 {
                        let (x, y) = (self.name("left"), self.name("right"));
                        let op = if p.ends_with("min") { "<=" } else { ">" };
                        *e = ex(&format!("{{ let {x} = {}; let {y} = {}; if {x} {op} {y} {{ {x} }} else {{ {y} }} }}", ts(&c.args[0]), ts(&c.args[1])));
                        return self.visit_expr_mut(e);
                    }
                    if matches!(p.as_str(), "u64::from" | "u32::from" | "usize::from" | "i32::from" | "i64::from") && c.args.len() == 1 {
                        *e = ex(&format!("(({}) as {})", ts(&c.args[0]), p.split("::").next().unwrap()));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(x) = self.consumer(&m.clone()) { *e = x; return self.visit_expr_mut(e); }
                let n = m.args.len();
                match (name.as_str(), n) {
                    ("unwrap_or_default", 0) => {
                        let v = self.name("value");
                        *e = ex(&format!("match {} {{ Some({v}) => {v}, None => crate::typeface::Default::default(), }}", ts(&m.receiver)));
                        return self.visit_expr_mut(e);
                    }
                    ("map", 1) | ("and_then", 1) => {
                        if let Some(c) = self.closure_arg(&m.args[0]) {
                            let v = self.name("value");
                            if let Some((b, _)) = self.apply_pat(&c, &v) {
                                let body = if name == "map" { format!("Some({})", ts(&b)) } else { ts(&b) };
                                if exits_block(&b).tries > 0 { self.fail::<()>("result of a closure"); return; }
                                *e = ex(&format!("match {} {{ Some({v}) => {body}, None => None, }}", ts(&m.receiver)));
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                    ("then", 1) => {
                        if let Some(c) = self.closure_arg(&m.args[0]) {
                            if exits_expr(&c.body).tries > 0 { self.fail::<()>("result of a closure"); return; }
                            *e = ex(&format!("if {} {{ Some({}) }} else {{ None }}", ts(&m.receiver), ts(&c.body)));
                            return self.visit_expr_mut(e);
                        }
                    }
                    ("then_some", 1) => {
                        *e = ex(&format!("if {} {{ Some({}) }} else {{ None }}", ts(&m.receiver), ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("unwrap_or", 1) => {
                        let v = self.name("value");
                        *e = ex(&format!("match {} {{ Some({v}) => {v}, None => {}, }}", ts(&m.receiver), ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("map_or", 2) => {
                        if let Some(c) = self.closure_arg(&m.args[1]) {
                            let v = self.name("value");
                            if let Some((b, _)) = self.apply_pat(&c, &v) {
                                *e = ex(&format!("match {} {{ Some({v}) => {}, None => {}, }}", ts(&m.receiver), ts(&b), ts(&m.args[0])));
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                    ("get", 1) => {
                        // Vec::get; Features::get and the like are under contract, but not called.
                        let v = self.name("index");
                        let r = ts(&m.receiver);
                        *e = ex(&format!("{{ let {v}: usize = {}; if {v} < {r}.len() {{ Some(&{r}[{v}]) }} else {{ None }} }}", ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("div_ceil", 1) => {
                        let (x, y) = (self.name("left"), self.name("right"));
                        *e = ex(&format!("{{ let {x} = {}; let {y} = {}; {x} / {y} + (if {x} % {y} == 0 {{ 0 }} else {{ 1 }}) }}", ts(&m.receiver), ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("is_multiple_of", 1) => {
                        *e = ex(&format!("({} % {} == 0)", ts(&m.receiver), ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("pow", 1) if ts(unparen(&m.receiver)).trim_end_matches(|c: char| c == '_').replace("_", "").trim_end_matches("usize").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64") == "2" => {
                        let t = ts(unparen(&m.receiver)).replace('_', "");
                        *e = ex(&format!("(1{} << ({}))", &t[1..], ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("min", 1) | ("max", 1) => {
                        let (x, y) = (self.name("left"), self.name("right"));
                        let op = if name == "min" { "<=" } else { ">" };
                        *e = ex(&format!("{{ let {x} = {}; let {y} = {}; if {x} {op} {y} {{ {x} }} else {{ {y} }} }}", ts(&m.receiver), ts(&m.args[0])));
                        return self.visit_expr_mut(e);
                    }
                    ("is_some_and", 1) | ("is_none_or", 1) => {
                        if let Some(c) = self.closure_arg(&m.args[0]) {
                            let v = self.name("value");
                            if let Some((b, _)) = self.apply_pat(&c, &v) {
                                *e = ex(&format!("match {} {{ Some({v}) => {}, None => {}, }}", ts(&m.receiver), ts(&b), name == "is_none_or"));
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                    ("first", 0) => {
                        let r = ts(&m.receiver);
                        *e = ex(&format!("(if {r}.len() > 0 {{ Some(&{r}[0]) }} else {{ None }})"));
                        return self.visit_expr_mut(e);
                    }
                    ("last", 0) => {
                        let r = ts(&m.receiver);
                        *e = ex(&format!("(if {r}.len() > 0 {{ Some(&{r}[{r}.len() - 1]) }} else {{ None }})"));
                        return self.visit_expr_mut(e);
                    }
                    ("is_empty", 0) => {
                        *e = ex(&format!("({}.len() == 0)", ts(&m.receiver)));
                        return self.visit_expr_mut(e);
                    }
                    _ => {
                        if let Some(f) = self.find_method(&m.receiver, &name, n) {
                            let mut all = vec![*m.receiver.clone()]; all.extend(m.args.iter().cloned());
                            if let Some(b) = self.inline(&f, all) {
                                let x = exits_block(&b);
                                if x.tries > 0 || x.any_return > 0 { self.fail::<()>(format!("result of {name}")); return; }
                                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                // What is dereferenced is a reference.
                self.by_ref = refers(&f.pat) || matches!(&*f.pat, Pat::Ident(p) if ts(&f.body).contains(&format!("* {} ", p.ident)) || ts(&f.body).contains(&format!("* {})", p.ident)));
                let s = self.source(&f.expr, true);
                self.by_ref = false;
                if let Some(s) = s {
                    let mut s = s;
                    let mut stmts = std::mem::take(&mut s.body);
                    let mut idx = s.idx.clone();
                    let plain_range = matches!((&s.elem, &*f.pat), (Elem::Val(v), Pat::Ident(p)) if simple_path(v).as_deref() == Some(&idx) && p.mutability.is_none());
                    if plain_range {
                        if let Pat::Ident(p) = &*f.pat { idx = p.ident.to_string(); }
                    } else if self.bind(&f.pat.clone(), s.elem, false, &mut stmts).is_none() {
                        self.fail::<()>("pattern of a loop");
                    }
                    stmts.append(&mut f.body.stmts);
                    let label = f.label.take();
                    let mut new = ex(&format!("for {idx} in {}..{} {{ {} }}", ts(&s.lo), ts(&s.hi), toks(&stmts)));
                    if let Expr::ForLoop(n) = &mut new { n.label = label; visit_mut::visit_expr_for_loop_mut(self, n); }
                    if s.setup.is_empty() { *e = new; } else { *e = ex(&format!("{{ {} {} }}", toks(&s.setup), ts(&new))); if let Expr::Block(b) = e { for st in b.block.stmts.iter_mut().take(s.setup.len()) { self.visit_stmt_mut(st); } } }
                } else { self.fail::<()>("iterator of a loop"); }
                return;
            }
            Expr::Match(m) => {
                if let Some(x) = byte_match(m) { *e = x; return self.visit_expr_mut(e); }
            }
            Expr::Binary(b) => {
                if let Some((x, m, yes)) = bit_test(b) {
                    *e = ex(&format!("{}crate::typeface::has_bits({x}, {m}u16)", if yes { "" } else { "!" }));
                    return self.visit_expr_mut(e);
                }
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    let (l, r) = (byte_lit(&b.left), byte_lit(&b.right));
                    let bang = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                    if l.is_none() && r.is_none() {
                        // &x == y as x == *y.
                        let new = match (unparen(&b.left), unparen(&b.right)) {
                            (Expr::Reference(x), Expr::Reference(y)) => Some((ts(&x.expr), ts(&y.expr))),
                            (Expr::Reference(x), y) => Some((ts(&x.expr), format!("*({})", ts(y)))),
                            (x, Expr::Reference(y)) => Some((format!("*({})", ts(x)), ts(&y.expr))),
                            _ => None,
                        };
                        if let Some((x, y)) = new { *e = ex(&format!("({x} {} {y})", ts(&b.op))); return self.visit_expr_mut(e); }
                    }
                    let pair = match (l, r) { (None, Some(r)) => Some((b.left.clone(), r)), (Some(l), None) => Some((b.right.clone(), l)), _ => None };
                    if let Some((x, lit)) = pair {
                        *e = ex(&format!("{bang}crate::typeface::same(&{}, {lit})", ts(&bytes_place(&x))));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::Lit(l) => {
                if let Some(b) = byte_lit(&Expr::Lit(l.clone())) { *e = ex(&format!("&{b}")); }
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(b) = byte_lit(&u.expr) { *e = ex(&b); return; }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(_) | Expr::Call(_) = e { self.fix_call(e); }
    }

    fn apply_pat(&mut self, c: &ExprClosure, v: &str) -> Option<(Block, ())> {
        // The pattern of the closure against the value inside an option.
        let mut pat = c.inputs.first()?.clone();
        if let Pat::Type(t) = pat { pat = *t.pat; }
        let mut b = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![tail(e.clone())] } };
        self.prep(&mut b);
        let b = self.elim(b)?;
        let mut stmts = vec![];
        match &pat {
            Pat::Wild(_) => {}
            Pat::Reference(r) => stmts.push(parse_str_stmt(&format!("let {} = *{v};", ts(&r.pat)))),
            p => stmts.push(parse_str_stmt(&format!("let {} = {v};", ts(p)))),
        }
        stmts.extend(b.stmts);
        Some((Block { brace_token: Default::default(), stmts }, ()))
    }

    fn fix_call(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Some(p) = call_path(&Expr::Call(c.clone())) {
                if p.ends_with("io::Read::read_exact") || p.ends_with("tape::Read::read_exact") {
                    let (a, b) = (ts(&c.args[0]), ts(&c.args[1]));
                    *e = ex(&format!("{a}.read_exact({b})"));
                }
            }
        }
    }
}

thread_local! {
    /// The constants that are strings of bytes.
    static BYTES: std::cell::RefCell<std::collections::HashMap<String, Option<String>>> = Default::default();
}

/// Notes the constants that are strings of bytes.
pub fn note_bytes(file: &File) {
    struct V;
    impl V {
        fn note(&mut self, name: &Ident, e: &Expr) {
            let v = byte_lit(e);
            BYTES.with(|m| { m.borrow_mut().entry(name.to_string()).and_modify(|x| if *x != v { *x = None }).or_insert(v); });
        }
    }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_item_const(&mut self, c: &'a ItemConst) { self.note(&c.ident, &c.expr); syn::visit::visit_item_const(self, c); }
        fn visit_item_static(&mut self, c: &'a ItemStatic) { self.note(&c.ident, &c.expr); }
        fn visit_impl_item_const(&mut self, c: &'a ImplItemConst) { self.note(&c.ident, &c.expr); }
        fn visit_trait_item_const(&mut self, c: &'a TraitItemConst) { if let Some((_, e)) = &c.default { self.note(&c.ident, e); } }
    }
    syn::visit::Visit::visit_file(&mut V, file);
}

fn bytes_const(p: &Path) -> Option<String> {
    let name = p.segments.last()?.ident.to_string();
    // Names of constants are in capitals.
    if name.chars().any(|c| c.is_ascii_lowercase()) { return None; }
    BYTES.with(|m| m.borrow().get(&name).cloned().flatten())
}

pub fn byte_lit(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = unparen(e) { if let Some(x) = bytes_const(&p.path) { return Some(x); } }
    if let Expr::Lit(l) = unparen(e) {
        if let Lit::ByteStr(b) = &l.lit {
            return Some(format!("[{}]", b.value().iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", ")));
        }
    }
    if let Expr::Reference(r) = unparen(e) { return byte_lit(&r.expr).filter(|_| true); }
    if let Expr::Unary(u) = unparen(e) { if matches!(u.op, UnOp::Deref(_)) { return byte_lit(&u.expr); } }
    None
}

/// Where the bytes of a tag lie.
fn bytes_place(e: &Expr) -> Expr {
    match unparen(e) {
        Expr::Reference(r) => bytes_place(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => bytes_place(&u.expr),
        e => e.clone(),
    }
}

/// A match on strings of bytes as a chain of conditions.
fn byte_match(m: &ExprMatch) -> Option<Expr> {
    fn pats(p: &Pat) -> Option<Vec<String>> {
        match p {
            Pat::Lit(l) => Some(vec![byte_lit(&Expr::Lit(l.clone()))?]),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(vec![bytes_const(&i.ident.clone().into())?]),
            Pat::Path(p) => Some(vec![bytes_const(&p.path)?]),
            Pat::Slice(s) => {
                let bytes = s.elems.iter().map(|p| match p { Pat::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u8>().ok(), Pat::Lit(ExprLit { lit: Lit::Byte(b), .. }) => Some(b.value()), _ => None }).collect::<Option<Vec<u8>>>()?;
                if bytes.len() != 4 { return None; }
                Some(vec![format!("[{}]", bytes.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "))])
            }
            Pat::Paren(p) => pats(&p.pat),
            Pat::Or(o) => o.cases.iter().map(pats).collect::<Option<Vec<_>>>().map(|v| v.concat()),
            _ => None,
        }
    }
    pats(&m.arms.first()?.pat)?;
    let place = ts(&bytes_place(&m.expr));
    if m.arms.len() > 12 {
        // Many strings: a match on what they are as numbers.
        let number = |p: &str| p.trim_matches(|c| c == '[' || c == ']').split(", ").map(|b| b.trim_end_matches("u8").parse::<u32>().ok()).try_fold((0u32, 0), |(n, k), b| Some((n << 8 | b?, k + 1))).filter(|x| x.1 == 4).map(|x| format!("{}u32", x.0));
        let mut arms = String::new();
        for a in &m.arms {
            if a.guard.is_some() { return None; }
            let p = match pats(&a.pat) {
                Some(ps) => ps.iter().map(|p| number(p)).collect::<Option<Vec<_>>>()?.join(" | "),
                None => if matches!(a.pat, Pat::Wild(_)) { "_".into() } else { return None },
            };
            arms += &format!("{p} => {{ {} }}\n", ts(&a.body));
        }
        return parse_str(&format!("match crate::typeface::word4(&{place}) {{ {arms} }}")).ok();
    }
    let mut out = String::new();
    let mut end = 0;
    for a in &m.arms {
        if a.guard.is_some() { return None; }
        match pats(&a.pat) {
            Some(ps) => {
                let c = ps.iter().map(|p| format!("crate::typeface::same(&{place}, {p})")).collect::<Vec<_>>().join(" || ");
                out += &format!("if {c} {{ {} }} else {{ ", ts(&a.body));
                end += 1;
            }
            None => {
                if !matches!(a.pat, Pat::Wild(_)) { return None; }
                out += &ts(&a.body);
                out += &" }".repeat(end);
                return parse_str(&out).ok();
            }
        }
    }
    None
}

/// text.split(", ").filter(|x| !x.is_empty()) as the function of what it gives.
pub fn split_parts(b: &mut Block) {
    fn nonempty(e: &Expr) -> bool {
        let c = match unparen(e) { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return false };
        fn name(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => name(&t.pat), Pat::Reference(r) => name(&r.pat), _ => None } }
        let n = match name(&c.inputs[0]) { Some(n) => n, None => return false };
        let body = match &*c.body { Expr::Block(b) if b.block.stmts.len() == 1 => ts(&b.block), x => ts(x) };
        let body: String = body.chars().filter(|c| !" {}()*".contains(*c)).collect();
        [format!("!{n}.is_empty"), format!("{n}.len>0"), format!("{n}.len!=0"), format!("{n}!=\"\""), format!("{n}.is_empty==false")].contains(&body)
    }
    let closures: Vec<(usize, String)> = b.stmts.iter().enumerate().filter_map(|(i, s)| match s {
        Stmt::Local(syn::Local { pat, init: Some(x), .. }) if nonempty(&x.expr) => match pat { Pat::Ident(p) if p.mutability.is_none() => Some((i, p.ident.to_string())), _ => None },
        _ => None,
    }).collect();
    let tail = match b.stmts.last_mut() { Some(Stmt::Expr(e, None)) => e, _ => return };
    let mut used = None;
    let new = match unparen(tail) {
        Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 => match unparen(&f.receiver) {
            Expr::MethodCall(s) if s.method == "split" && s.args.len() == 1 && ts(&s.args[0]) == "\", \"" => {
                let plain = nonempty(&f.args[0]);
                used = simple_path(&f.args[0]).and_then(|n| closures.iter().find(|c| c.1 == n)).map(|c| c.0);
                if plain || used.is_some() { Some(ex(&format!("crate::typeface::parts({})", ts(&s.receiver)))) } else { None }
            }
            _ => None,
        },
        _ => None,
    };
    if let Some(new) = new { *tail = new; if let Some(i) = used { b.stmts.remove(i); } }
}

/// while v.len() < n { ..; v.push(..); } as a loop over a range.
fn while_pushes(b: &mut Block) {
    for j in 0..b.stmts.len() {
        let mut new = None;
        if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
            let len = |e: &Expr| match unparen(e) { Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => simple_path(&m.receiver), _ => None };
            let (v, n) = match unparen(&w.cond) {
                Expr::Binary(c) if matches!(c.op, BinOp::Lt(_)) => (len(&c.left), Some(&c.right)),
                Expr::Binary(c) if matches!(c.op, BinOp::Gt(_)) => (len(&c.right), Some(&c.left)),
                _ => (None, None),
            };
            if let (Some(v), Some(n)) = (v, n) {
                // The vector is empty at first, and grows by one in each iteration.
                let init = (0..j).rev().find(|&q| mentions(&ts(&b.stmts[q]), &v));
                let empty = init.is_some_and(|q| match &b.stmts[q] {
                    Stmt::Local(syn::Local { pat, init: Some(i), .. }) => ts(pat).contains(&format!("mut {v}")) && call_path(unparen(&i.expr)).is_some_and(|p| p.ends_with("Vec::new") || p.ends_with("Vec::with_capacity")),
                    _ => false,
                });
                let pushes = w.body.stmts.iter().filter(|s| matches!(s, Stmt::Expr(Expr::MethodCall(m), _) if m.method == "push" && simple_path(&m.receiver).as_deref() == Some(&v) && !mentions(&ts(&m.args[0]), &v))).count();
                let uses = w.body.stmts.iter().filter(|s| mentions(&ts(s), &v)).count();
                let odd = w.body.stmts.iter().any(|s| { let t = ts(s); mentions(&t, "continue") || mentions(&t, "break") });
                if empty && pushes == 1 && uses == 1 && !odd && pure(n) {
                    new = Some(parse_str_stmt(&format!("for _ in 0..({}) {}", ts(n), ts(&w.body))));
                }
            }
        }
        if let Some(s) = new { b.stmts[j] = s; }
    }
}

/// while i < n { ..; i += 1; } as a loop over a range.
fn while_loops(b: &mut Block) {
    let mut j = 0;
    while j < b.stmts.len() {
        let mut new = None;
        if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
            // while i < n && C { i += 1; } as a search for the first that is not C.
            if let Expr::Binary(a) = unparen(&w.cond) {
                if let (BinOp::And(_), Expr::Binary(c)) = (&a.op, unparen(&a.left)) {
                    if let (BinOp::Lt(_) | BinOp::Ne(_), Some(i)) = (&c.op, simple_path(&c.left)) {
                        let only = match &w.body.stmts[..] { [s] => { let t = ts(s).replace(' ', ""); t.starts_with(&format!("{i}+=1")) || t == format!("{i}={i}+1;") } _ => false };
                        let init = (0..j).rev().find(|&q| mentions(&ts(&b.stmts[q]), &i));
                        let zero = init.is_some_and(|q| match &b.stmts[q] { Stmt::Local(syn::Local { pat, init: Some(x), .. }) => ts(pat).contains(&format!("mut {i}")) && matches!(ts(&x.expr).as_str(), "0" | "0usize"), _ => false });
                        if only && zero && pure(&c.right) && !mentions(&ts(&c.right), &i) && exits_expr(&a.right).tries == 0 {
                            let f = format!("found__w{i}");
                            let n = ts(&c.right);
                            new = Some((init.unwrap(), parse_str_stmt(&format!("let mut {i} = {{ let mut {f} = None; for {i} in 0..{n} {{ if {f}.is_none() {{ if !({}) {{ {f} = Some({i}); }} }} }} match {f} {{ Some({i}) => {i}, None => {n}, }} }};", ts(&a.right)))));
                        }
                    }
                }
            }
            if let Expr::Binary(c) = unparen(&w.cond) {
                if let (BinOp::Lt(_) | BinOp::Ne(_), Some(i)) = (&c.op, simple_path(&c.left)) {
                    let text = |s: &Stmt| ts(s).replace(' ', "");
                    let init = (0..j).rev().find(|&q| matches!(&b.stmts[q], Stmt::Local(l) if { let mut x = Binders { names: Default::default() }; x.visit_pat_mut(&mut l.pat.clone()); x.names.contains(&i) }));
                    let last = w.body.stmts.last().map(text).unwrap_or_default();
                    let step = last.starts_with(&format!("{i}+=1")) || last == format!("{i}={i}+1;");
                    let used = |ss: &[Stmt]| ss.iter().any(|s| mentions(&ts(s), &i));
                    let assigns = w.body.stmts[..w.body.stmts.len().saturating_sub(1)].iter().any(|s| { let t = ts(s).replace(' ', ""); t.contains(&format!("{i}+=")) || t.contains(&format!("{i}-=")) || has_assign(&t, &i) });
                    let odd = w.body.stmts.iter().any(|s| { let t = ts(s); mentions(&t, "continue") || mentions(&t, "break") });
                    if let Some(q) = init {
                        if step && !assigns && !odd && !used(&b.stmts[j + 1..]) && !used(&b.stmts[q + 1..j]) {
                            if let Stmt::Local(l) = &b.stmts[q] {
                                if let Some(x) = &l.init {
                                    let lo = ts(&x.expr);
                                    // Only from zero on is any other number a larger one.
                                    if matches!(c.op, BinOp::Ne(_)) && !matches!(lo.as_str(), "0" | "0usize" | "0u16" | "0u32" | "0u64") { j += 1; continue; }
                                    let body = toks(&w.body.stmts[..w.body.stmts.len() - 1]);
                                    new = Some((q, parse_str_stmt(&format!("for {i} in {lo}..({}) {{ {body} }}", ts(&c.right)))));
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Some((q, s)) = new { b.stmts[j] = s; b.stmts.remove(q); } else { j += 1; }
    }
}

pub fn mentions(text: &str, name: &str) -> bool {
    text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name)
}

fn has_assign(t: &str, i: &str) -> bool {
    t.match_indices(&format!("{i}=")).any(|(p, m)| {
        let before = t[..p].chars().last();
        let after = t[p + m.len()..].chars().next();
        !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.') && after != Some('=')
    })
}
