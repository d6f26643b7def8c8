//! Emission of the normalized crate together with its contracts.
use crate::inv;
use crate::load::*;
use crate::norm::*;
use crate::print::print;
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Meta {
    /// Structures of the grammar: what their readers reveal.
    pub reveals: HashMap<String, Vec<String>>,
    /// Contracts by function (what follows the signature, and what comes first in the body).
    pub contracts: HashMap<String, (String, String)>,
    /// Types with a default in the grammar.
    pub defaults: HashSet<String>,
    /// Types that are read given a parameter.
    pub walues: HashSet<String>,
    pub skip: HashMap<String, String>,
    pub drop: HashSet<String>,
    /// If not empty, the types that alone are emitted.
    pub only: HashSet<String>,
    pub probe: bool,
    /// Whether to tell, for each structure of the grammar, what it means that two of them are alike.
    pub alike: bool,
    /// Methods that tell whether bits are set.
    pub bits: HashMap<String, u64>,
    pub chains: HashMap<String, String>,
    /// Invariants of loops (and what is to be noticed in each iteration) by function.
    pub loops: HashMap<String, Vec<(String, String)>>,
}

pub struct Entry { pub id: String, pub start: usize, pub end: usize, pub status: String, pub reason: String, pub loops: usize, pub inlined: Vec<String>, pub kind: String }

pub struct Emit<'a> {
    pub krate: &'a Crate,
    pub meta: &'a Meta,
    pub out: String,
    pub entries: Vec<Entry>,
    pub dropped: Vec<String>,
}

/// Rewrites paths to those of the prelude.
struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].arguments.is_none() {
            let f = p.segments[0].ident.to_string();
            if matches!(f.as_str(), "typeface" | "truetype" | "postscript") {
                p.leading_colon = None;
                p.segments.insert(0, parse_str("crate").unwrap());
                return;
            }
        }
        let s = path_str(p);
        let last = p.segments.last().unwrap().ident.to_string();
        if p.leading_colon.is_some() || s.starts_with("core::") || s.starts_with("std::") || s.starts_with("alloc::") {
            let n = p.segments.len();
            if s.contains("default::Default::") { *p = parse_str(&format!("crate::typeface::Default::{last}")).unwrap(); return; }
            if s.ends_with("default::Default") { *p = parse_str("crate::typeface::Default").unwrap(); return; }
            if n >= 2 && matches!(last.as_str(), "Option" | "Vec" | "Some" | "None" | "Ok" | "Err" | "String" | "Result") && !s.contains("io::") {
                let args = p.segments.last().unwrap().arguments.clone();
                *p = parse_str(&last).unwrap();
                p.segments[0].arguments = args;
                return;
            }
            if n >= 3 && matches!(p.segments[n - 2].ident.to_string().as_str(), "Option" | "Vec" | "String") {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(n - 2).cloned().collect();
                return;
            }
            if s.ends_with("io::Error") { *p = parse_str("crate::typeface::Error").unwrap(); return; }
            if s.ends_with("io::Result") { let args = p.segments.last().unwrap().arguments.clone(); *p = parse_str("crate::typeface::Result").unwrap(); p.segments[2].arguments = args; return; }
            p.leading_colon = None;
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        u.leading_colon = None;
        if let UseTree::Path(p) = &u.tree {
            if matches!(p.ident.to_string().as_str(), "typeface" | "truetype" | "postscript") {
                let t = ts(&u.tree);
                u.tree = parse_str(&format!("crate::{t}")).unwrap();
            }
        }
    }
}

/// Names the type of an implementation.
struct Itself(String);
impl VisitMut for Itself {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments[0].ident == "Self" { p.segments[0].ident = parse_str(&self.0).unwrap(); }
    }
}

/// Strips lifetimes from types.
struct Lifetimes;
impl VisitMut for Lifetimes {
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if let PathArguments::AngleBracketed(a) = &s.arguments { if a.args.is_empty() { s.arguments = PathArguments::None; } }
    }
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) { t.lifetime = None; visit_mut::visit_type_reference_mut(self, t); }
}

fn public(v: &mut Visibility) { *v = parse_str("pub").unwrap(); }

fn keep_derives(krate: &Crate, full: &str) -> String {
    let d = match krate.derives.get(full) { Some(d) => d, None => return String::new() };
    if d.contains("Copy") { "#[derive(Clone, Copy)]\n".into() } else { String::new() }
}

impl Emit<'_> {
    fn line(&self) -> usize { self.out.matches('\n').count() + 1 }
    fn put(&mut self, s: &str) { self.out.push_str(s); self.out.push('\n'); }
    fn item<T: ToTokens>(&mut self, t: &T) { let s = print(t.to_token_stream(), 0); self.put(&s); }

    pub fn module(&mut self, module: &str, items: &[Item]) {
        let mut uses: Vec<String> = vec![];
        let only = |n: &str| self.meta.only.is_empty() || self.meta.only.contains(&join(module, n));
        let items: Vec<&Item> = items.iter().filter(|i| match i {
            Item::Struct(s) => only(&s.ident.to_string()),
            Item::Enum(s) => only(&s.ident.to_string()),
            Item::Type(s) => only(&s.ident.to_string()),
            Item::Impl(i) => only(&match &*i.self_ty { Type::Path(p) => path_str(&p.path), _ => String::new() })
                || i.trait_.as_ref().is_some_and(|(_, p, _)| self.meta.only.iter().any(|o| mentions(&ts(p), o.rsplit("::").next().unwrap()))),
            Item::Use(u) => self.meta.only.is_empty() || !ts(u).contains("crate") && self.meta.only.iter().any(|o| o.rsplit_once("::").unwrap().0 == module),
            Item::Mod(_) => true,
            _ => self.meta.only.is_empty(),
        }).collect();
        for item in items {
            match item {
                Item::Mod(m) => {
                    if is_test(&m.attrs) { continue; }
                    if let Some((_, items)) = &m.content {
                        let full = join(module, &m.ident.to_string());
                        if self.meta.drop.contains(&full) { continue; }
                        if !self.meta.only.is_empty() && !self.meta.only.iter().any(|o| o.starts_with(&format!("{full}::"))) { continue; }
                        self.put(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::typeface::*;\n{}", m.ident, if self.meta.only.is_empty() { "broadcast use crate::typeface::facts;" } else { "" }));
                        self.module(&full, items);
                        self.put("}");
                    }
                }
                Item::Use(u) => {
                    let mut u = u.clone();
                    u.attrs.clear();
                    match self.without_dropped(module, "", &u.tree) { Some(t) => u.tree = t, None => continue }
                    Paths.visit_item_use_mut(&mut u);
                    public(&mut u.vis);
                    let s = ts(&u);
                    let plain = s.replace(' ', "");
                    if plain.starts_with("pubusestd::") || plain.starts_with("pubusecore::") || plain.starts_with("pubusealloc::") { continue; }
                    uses.push(s);
                }
                Item::Struct(s) => {
                    let full = join(module, &s.ident.to_string());
                    if self.meta.drop.contains(&full) { continue; }
                    let mut s = s.clone();
                    s.attrs.clear();
                    for f in s.fields.iter_mut() { f.attrs.clear(); public(&mut f.vis); }
                    public(&mut s.vis);
                    Paths.visit_item_struct_mut(&mut s);
                    Lifetimes.visit_item_struct_mut(&mut s);
                    let d = keep_derives(self.krate, &full);
                    self.out.push_str(&d);
                    self.item(&s);
                    if self.meta.alike && self.meta.reveals.contains_key(&full) { self.alike_struct(&s); }
                    self.derived_default(&full, &s);
                }
                Item::Enum(s) => {
                    let full = join(module, &s.ident.to_string());
                    if self.meta.drop.contains(&full) { continue; }
                    let mut s = s.clone();
                    s.attrs.clear();
                    for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                    public(&mut s.vis);
                    Paths.visit_item_enum_mut(&mut s);
                    let d = keep_derives(self.krate, &full);
                    self.out.push_str(&d);
                    self.item(&s);
                    if self.meta.alike && self.meta.reveals.contains_key(&full) { self.alike_enum(&s); }
                }
                Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); public(&mut t.vis); Paths.visit_item_type_mut(&mut t); self.item(&t); }
                Item::Const(c) => {
                    if c.ident == "_" { continue; }
                    let mut c = c.clone(); c.attrs.clear(); public(&mut c.vis); Paths.visit_item_const_mut(&mut c); self.item(&c);
                }
                Item::Fn(f) => {
                    let id = join(module, &f.sig.ident.to_string());
                    if self.meta.contracts.contains_key(&id) { self.function(&id, None); }
                }
                Item::Trait(t) => {
                    let full = join(module, &t.ident.to_string());
                    if full == "table::Table" {
                        self.put("pub trait Table: TableSpec { fn tag() -> (r: crate::truetype::Tag) ensures /*@kind:tag*/ crate::truetype::tag32(r) == <Self as TableSpec>::spec_tag(); }");
                    } else { self.dropped.push(format!("trait {full}")); }
                }
                Item::Impl(i) => self.implementation(module, i),
                _ => {}
            }
        }
        for u in uses { self.put(&u); }
    }

    /// The tree of a use without what is dropped.
    fn without_dropped(&self, module: &str, prefix: &str, t: &UseTree) -> Option<UseTree> {
        let known = |n: &str| -> bool {
            let p = join(prefix, n);
            let p = match p.strip_prefix("crate::") { Some(p) => p.to_string(), None => join(module, p.strip_prefix("self::").unwrap_or(&p)) };
            self.meta.drop.contains(&p)
        };
        match t {
            UseTree::Path(p) => {
                let mut q = p.clone();
                q.tree = Box::new(self.without_dropped(module, &join(prefix, &p.ident.to_string()), &p.tree)?);
                Some(UseTree::Path(q))
            }
            UseTree::Name(n) => if known(&n.ident.to_string()) { None } else { Some(t.clone()) },
            UseTree::Rename(n) => if known(&n.ident.to_string()) { None } else { Some(t.clone()) },
            UseTree::Glob(_) => Some(t.clone()),
            UseTree::Group(g) => {
                let items: Vec<UseTree> = g.items.iter().filter_map(|x| self.without_dropped(module, prefix, x)).collect();
                if items.is_empty() { return None; }
                let mut g = g.clone();
                g.items = items.into_iter().collect();
                Some(UseTree::Group(g))
            }
        }
    }

    fn alike(&mut self, name: &Ident, g: &Generics, body: String) {
        let ps: Vec<String> = g.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
        let (bounds, args) = if ps.is_empty() { (String::new(), String::new()) } else {
            (format!("<{}>", ps.iter().map(|p| format!("{p}: crate::placement::Alike")).collect::<Vec<_>>().join(", ")), format!("<{}>", ps.join(", "))) };
        self.put(&format!("impl{bounds} crate::placement::Alike for {name}{args} {{ open spec fn alike(self, o: Self) -> bool {{ {body} }} }}"));
    }
    /// Two values are alike if they are field by field.
    fn alike_struct(&mut self, s: &ItemStruct) {
        let fields = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()));
        let body = fields.map(|f| format!("crate::placement::Alike::alike(self.{f}, o.{f})")).collect::<Vec<_>>().join(" && ");
        self.alike(&s.ident, &s.generics, if body.is_empty() { "true".into() } else { body });
    }
    fn alike_enum(&mut self, s: &ItemEnum) {
        let mut arms = vec![];
        for v in &s.variants {
            let n = &v.ident;
            match &v.fields {
                Fields::Unit => arms.push(format!("(Self::{n}, Self::{n}) => true,")),
                Fields::Unnamed(f) => {
                    let k = f.unnamed.len();
                    let names = |x: &str| (0..k).map(|i| format!("{x}{i}")).collect::<Vec<_>>().join(", ");
                    let body = (0..k).map(|i| format!("crate::placement::Alike::alike(x{i}, y{i})")).collect::<Vec<_>>().join(" && ");
                    arms.push(format!("(Self::{n}({}), Self::{n}({})) => {body},", names("x"), names("y")));
                }
                Fields::Named(_) => return,
            }
        }
        self.alike(&s.ident, &s.generics, format!("match (self, o) {{ {} _ => false }}", arms.join(" ")));
    }

    fn derived_default(&mut self, full: &str, s: &ItemStruct) {
        if !self.krate.derives.get(full).is_some_and(|d| d.contains("Default")) { return; }
        if !s.generics.params.is_empty() { return; }
        let name = &s.ident;
        let fields: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())).collect();
        if !self.meta.defaults.contains(full) {
            let body = s.fields.iter().zip(&fields).map(|(f, n)| format!("<{} as DefaultSpec>::is_default(self.{n})", ts(&f.ty))).collect::<Vec<_>>().join(" && ");
            self.put(&format!("impl DefaultSpec for {name} {{ open spec fn is_default(self) -> bool {{ {} }} }}", if body.is_empty() { "true".into() } else { body }));
        }
        let start = self.line();
        let body = s.fields.iter().zip(&fields).map(|(f, n)| format!("{n}: <{} as crate::typeface::Default>::default()", ts(&f.ty))).collect::<Vec<_>>().join(", ");
        self.put(&format!("impl crate::typeface::Default for {name} {{ fn default() -> Self {{ {name} {{ {body} }} }} }}"));
        let end = self.line();
        self.entries.push(Entry { id: format!("{full}::<Default>::default"), start, end, status: "verified".into(), reason: "derived".into(), loops: 0, inlined: vec![], kind: "default".into() });
    }

    fn implementation(&mut self, module: &str, i: &ItemImpl) {
        if is_auto(&i.attrs) { return; }
        let name = match &*i.self_ty { Type::Path(p) => path_str(&p.path), _ => return };
        let short = name.rsplit("::").next().unwrap().to_string();
        let owner = self.krate.resolve(module, &name);
        if owner.as_ref().is_some_and(|o| self.meta.drop.contains(o)) { return; }
        if let Some((_, path, _)) = &i.trait_ {
            if dropped_trait(path) { self.dropped.push(format!("impl {} for {}", path_str(path), join(module, &name))); return; }
            let t = path.segments.last().unwrap().ident.to_string();
            match t.as_str() {
                "Read" => {
                    let o = match &owner { Some(o) => o.clone(), None => { self.dropped.push(format!("impl {t} for {name}")); return; } };
                    let w = path_str(path).contains("walue");
                    if !self.meta.reveals.contains_key(&o) || self.meta.walues.contains(&o) != w {
                        self.dropped.push(format!("impl {} for {o} (not in the grammar)", path_str(path)));
                        return;
                    }
                }
                "Default" => if !owner.as_ref().is_some_and(|o| self.meta.defaults.contains(o)) { self.dropped.push(format!("impl Default for {name}")); return; },
                "Table" => {}
                "From" => {
                    for f in &i.items { if let ImplItem::Fn(f) = f {
                        let id = format!("{}::<From>::{}", join(module, &short), f.sig.ident);
                        if self.meta.contracts.contains_key(&id) { self.function(&id, None); }
                    } }
                    return;
                }
                _ => { self.dropped.push(format!("impl {} for {name}", path_str(path))); return; }
            }
            let (mut p, mut g, mut st) = (path.clone(), i.generics.clone(), (*i.self_ty).clone());
            Paths.visit_path_mut(&mut p); Lifetimes.visit_path_mut(&mut p);
            Paths.visit_generics_mut(&mut g); Lifetimes.visit_generics_mut(&mut g);
            Paths.visit_type_mut(&mut st);
            if t == "Default" { p = parse_str("crate::typeface::Default").unwrap(); }
            let params: Vec<_> = g.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))).cloned().collect();
            g.params = params.into_iter().collect();
            // Defaults of generic types are needed for all arguments.
            let w = g.where_clause.clone();
            let gp = if g.params.is_empty() { String::new() } else { format!("<{}>", ts(&g.params)) };
            self.put(&format!("impl{gp} {} for {} {} {{", ts(&p), ts(&st), w.map(|w| ts(&w)).unwrap_or_default()));
            for f in &i.items { if let ImplItem::Fn(f) = f {
                let id = format!("{}::<{t}>::{}", join(module, &short), f.sig.ident);
                self.function(&id, owner.as_deref());
            } }
            self.put("}");
            return;
        }
        // Inherent implementations: only what is under contract.
        let mut any = false;
        for f in &i.items { if let ImplItem::Fn(f) = f {
            let id = format!("{}::{}", join(module, &short), f.sig.ident);
            if self.meta.contracts.contains_key(&id) {
                if !any { any = true; let mut st = (*i.self_ty).clone(); Paths.visit_type_mut(&mut st); let g = i.generics.clone(); let gp = if g.params.is_empty() { String::new() } else { format!("<{}>", ts(&g.params)) }; self.put(&format!("impl{gp} {} {{", ts(&st))); }
                self.function(&id, owner.as_deref());
            }
        } }
        if any { self.put("}"); }
    }

    pub fn function(&mut self, id: &str, owner: Option<&str>) {
        let f = self.krate.funs[id].clone();
        let start = self.line();
        let mut e = Entry { id: id.into(), start, end: 0, status: "verified".into(), reason: String::new(), loops: 0, inlined: vec![], kind: f.trait_name.clone().unwrap_or("fn".into()) };
        let (contract, intro) = self.meta.contracts.get(id).cloned().unwrap_or_default();
        // The signature.
        let (mut tapes, into) = special_params(self.krate, &f.module, &f.sig.generics);
        for x in ["T", "TapeRead"] { if f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if ts(&t.ty).replace(' ', "") == format!("&mut{x}"))) { tapes.insert(x.into()); } }
        let mut generics: Vec<String> = vec![];
        let mut bounds: Vec<String> = vec![];
        for p in &f.sig.generics.params {
            if let GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                if tapes.contains(&n) || into.contains_key(&n) { continue; }
                let mut q = t.clone(); q.attrs.clear();
                Paths.visit_type_param_mut(&mut q);
                for b in q.bounds.iter_mut() { Lifetimes.visit_type_param_bound_mut(b); }
                generics.push(ts(&q));
            }
        }
        if let Some(w) = &f.sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    let n = ts(&t.bounded_ty).trim().to_string();
                    if tapes.contains(&n) || into.contains_key(&n) { continue; }
                    let mut q = t.clone();
                    Paths.visit_predicate_type_mut(&mut q);
                    Lifetimes.visit_predicate_type_mut(&mut q);
                    bounds.push(ts(&q));
                }
            }
        }
        let mut params: Vec<String> = vec![];
        let mut lets: Vec<String> = vec![];
        let mut tape = None;
        let mut convert: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => { if f.owner.is_none() && r.mutability.is_some() { tape = Some("self".into()); } let mut r = r.clone(); r.attrs.clear(); params.push(ts(&r)); }
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    if let Type::Reference(r) = &ty {
                        if r.mutability.is_some() && (tapes.contains(ts(&r.elem).trim()) || matches!(&*r.elem, Type::ImplTrait(i) if i.bounds.iter().any(is_tape_bound))) {
                            let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "tape".into() };
                            params.push(format!("{n}: &mut crate::typeface::tape::Read"));
                            tape = Some(n);
                            continue;
                        }
                    }
                    Paths.visit_type_mut(&mut ty);
                    if let Some(x) = into.get(ts(&ty).trim()) {
                        let mut x = x.clone(); Paths.visit_type_mut(&mut x); ty = x;
                        if let Pat::Ident(i) = &*t.pat { convert.push(i.ident.to_string()); }
                    }
                    Lifetimes.visit_type_mut(&mut ty);
                    let walue = f.trait_name.as_deref() == Some("Read") && tape.is_some();
                    match &*t.pat {
                        Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() => { names.push(i.ident.to_string()); params.push(format!("{}: {}", i.ident, ts(&ty))) }
                        p => { names.push("param".into()); params.push(format!("param: {}", ts(&ty))); lets.push(format!("let {} = param;", ts(p))); }
                    }
                    let _ = walue;
                }
            }
        }
        let mut ret = match &f.sig.output { ReturnType::Type(_, t) => { let mut t = (**t).clone(); if f.trait_name.as_deref() == Some("From") { Itself(id.split("::<").next().unwrap().rsplit("::").next().unwrap().into()).visit_type_mut(&mut t); } Paths.visit_type_mut(&mut t); Lifetimes.visit_type_mut(&mut t); Some(t) } ReturnType::Default => None };
        let mut eager = false;
        if let Some(t) = &ret { if let Some(x) = eager_type(t) { ret = Some(x); eager = true; } }
        let g = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
        let wh = if bounds.is_empty() { String::new() } else { format!(" where {}", bounds.join(", ")) };
        let rname = if f.trait_name.as_deref() == Some("From") { format!("from_{}", id.split("::<").next().unwrap().rsplit("::").next().unwrap()) } else { f.sig.ident.to_string() };
        let vis = if f.trait_name.is_some() && f.trait_name.as_deref() != Some("From") { "" } else { "pub " };
        // The names of the parameters are the function's own.
        let mut contract = contract;
        for (i, x) in names.iter().enumerate() { contract = contract.replace(&format!("%{i}"), x); }
        if let Some(t) = &tape { if t != "tape" { contract = contract.replace("(tape)", &format!("({t})")); } }
        let head = format!("{vis}fn {rname}{g}({}){}{wh} {contract}", params.join(", "), ret.as_ref().map(|t| format!(" -> (r: {})", ts(t))).unwrap_or_default());

        // The body.
        let mut n = Norm {
            krate: self.krate, module: f.module.clone(), owner: f.owner.clone(), tape: tape.clone(), fresh: 0, error: None,
            scopes: vec![], depth: 0, ret_result: ret.as_ref().is_some_and(|t| ts(t).contains("Result")), ret_option: ret.as_ref().is_some_and(|t| ts(t).starts_with("Option")), by_ref: false, inlined: HashSet::new(),
        };
        if let Some(r) = self.meta.skip.get(id) { n.error = Some(r.clone()); }
        let mut body = f.block.clone();
        let mut text = String::new();
        if n.error.is_none() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if f.trait_name.as_deref() == Some("From") { Itself(id.split("::<").next().unwrap().rsplit("::").next().unwrap().into()).visit_block_mut(&mut body); }
                split_parts(&mut body);
                n.prep(&mut body);
                if eager { eager_tail(&mut n, &mut body); }
                if n.ret_result { n.enter_only(&mut body); n.tail_result(&mut body); n.leave(&mut body); }
                n.visit_block_mut(&mut body);
                n.prep(&mut body);
                TapeArgs { tapes: tapes.clone(), drop: true }.visit_block_mut(&mut body);
                Paths.visit_block_mut(&mut body);
                Convert { names: convert.clone() }.visit_block_mut(&mut body);
                if n.error.is_none() {
                    let mut inv = inv::Inv::new(self.krate, &f, tape.clone(), self.meta.bits.clone());
                    inv.given = self.meta.loops.get(id).cloned().unwrap_or_default();
                    inv.run(&mut body);
                    e.loops = inv.loops;
                    if let Some(x) = inv.error { n.error = Some(x); }
                }
                if n.error.is_none() {
                    if let Some(x) = leftover(&body) { n.error = Some(x); }
                }
            }));
            if r.is_err() { n.error = Some("panic in the translation".into()); }
        }
        e.inlined = n.inlined.iter().cloned().collect();
        e.inlined.sort();
        if let Some(x) = &n.error {
            e.status = "unsupported".into();
            e.reason = x.clone();
            text += &format!("#[verifier::external_body]\n{head}\n{{ unimplemented!() }}\n");
        } else {
            let reveals = owner.and_then(|o| self.meta.reveals.get(o)).cloned().unwrap_or_default();
            let mut first = String::new();
            if f.trait_name.as_deref() == Some("Read") {
                let gen = !f.generics.params.is_empty();
                let mut names: Vec<String> = vec![];
                for r in reveals { names.push(r); }
                let _ = gen;
                if !names.is_empty() { first += &format!("proof {{ {} }}\n", names.iter().map(|n| format!("reveal(crate::specs::{n});")).collect::<Vec<_>>().join(" ")); }
            }
            if f.trait_name.as_deref() == Some("Read") {
                if let Some(c) = owner.and_then(|o| self.meta.chains.get(o)) { first += &format!("broadcast use crate::typeface::{c};\n"); }
            }
            first += &intro;
            if self.meta.probe { first += "assert(false);"; }
            let body_text = print(body.stmts.iter().map(|s| s.to_token_stream()).collect(), 1);
            let body_text = inv::restore(&body_text);
            text += &format!("{head}\n{{\n    {first}\n    {}\n    {body_text}\n}}\n", lets.join("\n    "));
        }
        self.out.push_str(&text);
        e.end = self.line();
        self.entries.push(e);
    }
}

/// impl Iterator<Item = X> as Vec<X>.
fn eager_type(t: &Type) -> Option<Type> {
    if let Type::ImplTrait(i) = t {
        for b in &i.bounds {
            if let TypeParamBound::Trait(t) = b {
                let l = t.path.segments.last().unwrap();
                if l.ident == "Iterator" || l.ident == "ExactSizeIterator" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        for x in &a.args {
                            if let GenericArgument::AssocType(x) = x {
                                let inner = eager_type(&x.ty).unwrap_or(x.ty.clone());
                                return parse_str(&format!("Vec<{}>", ts(&inner))).ok();
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

/// An iterator in the tail of a function as the vector of its values.
fn eager_tail(n: &mut Norm, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { eager(n, e); }
}
fn eager(n: &mut Norm, e: &mut Expr) {
    if let Expr::MethodCall(m) = e {
        if m.method == "map" && m.args.len() == 1 {
            if let Expr::Closure(c) = &mut m.args[0] {
                match &mut *c.body {
                    Expr::Block(b) => eager_tail_inner(n, &mut b.block),
                    x => if is_chain(x) { eager(n, x) },
                }
            }
        }
        *e = ex(&format!("({}).collect()", ts(e)));
    }
}
fn eager_tail_inner(n: &mut Norm, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { if is_chain(e) { eager(n, e); } }
}
fn is_chain(e: &Expr) -> bool { matches!(e, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "filter" | "take" | "iter")) }

/// Drops conversions of parameters that are emitted with their target type.
struct Convert { names: Vec<String> }
impl VisitMut for Convert {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "into" && m.args.is_empty() && simple_path(&m.receiver).is_some_and(|n| self.names.contains(&n)) { *e = (*m.receiver).clone(); }
        }
    }
}

/// What the verifier has no idea of.
fn leftover(b: &Block) -> Option<String> {
    struct L(Option<String>);
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => self.0 = Some("closure".into()),
                Expr::While(_) => self.0 = Some("while loop".into()),
                Expr::Loop(_) => self.0 = Some("loop".into()),
                Expr::Unsafe(_) => self.0 = Some("unsafe".into()),
                Expr::Macro(m) => self.0 = Some(format!("macro {}", path_str(&m.mac.path))),
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if matches!(n.as_str(), "iter" | "into_iter" | "enumerate" | "zip" | "filter" | "fold" | "collect" | "flat_map" | "chain" | "rev" | "windows" | "chunks" | "stay") {
                        self.0 = Some(format!("method {n}"));
                    }
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut l = L(None);
    l.visit_block_mut(&mut b.clone());
    l.0
}
