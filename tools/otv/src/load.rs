//! Loading of the expanded source: modules, types and functions.
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub struct Fun {
    pub id: String,
    pub module: String,
    /// The full path of the type of the implementation, if known.
    pub owner: Option<String>,
    pub trait_name: Option<String>,
    pub sig: Signature,
    pub block: Block,
    /// Type parameters of the implementation.
    pub generics: Generics,
    pub contracted: bool,
}

#[derive(Clone)]
pub struct Struct {
    pub fields: Vec<(String, Type)>,
}

#[derive(Default)]
pub struct Crate {
    pub structs: HashMap<String, Struct>,
    pub types: HashSet<String>,
    /// module -> name -> path
    pub uses: HashMap<String, HashMap<String, String>>,
    pub globs: HashMap<String, Vec<String>>,
    pub funs: BTreeMap<String, Fun>,
    pub derives: HashMap<String, HashSet<String>>,
    pub trait_contracts: HashSet<String>,
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else { format!("{a}::{b}") }
}

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

pub fn is_auto(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().segments.iter().any(|s| s.ident == "test" || s.ident == "rustc_test_marker"))
}

/// Whether an implementation of a trait is dropped: nothing a reader may depend on.
pub fn dropped_trait(path: &Path) -> bool {
    let s = path_str(path);
    let last = path.segments.last().unwrap().ident.to_string();
    s.ends_with("value::Write") || s.ends_with("walue::Write")
        || matches!(last.as_str(), "Debug" | "Display" | "Deref" | "DerefMut" | "Error" | "TryFrom" | "Hash" | "Index")
}

impl Crate {
    pub fn load(&mut self, module: &str, items: &[Item]) {
        for item in items {
            match item {
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.load(&join(module, &m.ident.to_string()), items);
                    }
                }
                Item::Struct(s) => {
                    let full = join(module, &s.ident.to_string());
                    self.types.insert(full.clone());
                    let fields = s.fields.iter().enumerate()
                        .map(|(i, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), f.ty.clone()))
                        .collect();
                    self.structs.insert(full, Struct { fields });
                }
                Item::Enum(s) => { self.types.insert(join(module, &s.ident.to_string())); }
                Item::Type(s) => { self.types.insert(join(module, &s.ident.to_string())); }
                Item::Use(u) => self.load_use(module, "", &u.tree),
                _ => {}
            }
        }
    }

    fn load_use(&mut self, module: &str, prefix: &str, tree: &UseTree) {
        match tree {
            UseTree::Path(p) => self.load_use(module, &join(prefix, &p.ident.to_string()), &p.tree),
            UseTree::Name(n) => {
                let n = n.ident.to_string();
                let (key, path) = if n == "self" {
                    (prefix.rsplit("::").next().unwrap().to_string(), prefix.to_string())
                } else { (n.clone(), join(prefix, &n)) };
                self.uses.entry(module.into()).or_default().insert(key, path);
            }
            UseTree::Rename(n) => {
                self.uses.entry(module.into()).or_default().insert(n.rename.to_string(), join(prefix, &n.ident.to_string()));
            }
            UseTree::Glob(_) => self.globs.entry(module.into()).or_default().push(prefix.to_string()),
            UseTree::Group(g) => for t in &g.items { self.load_use(module, prefix, t) },
        }
    }

    /// The full path of a type named in a module.
    pub fn resolve(&self, module: &str, path: &str) -> Option<String> {
        self.resolve_(module, path, 0)
    }

    fn resolve_(&self, module: &str, path: &str, depth: usize) -> Option<String> {
        if depth > 8 { return None; }
        if let Some(rest) = path.strip_prefix("crate::") {
            if self.types.contains(rest) { return Some(rest.to_string()); }
            let (m, n) = rest.rsplit_once("::").unwrap_or(("", rest));
            return self.named(m, n, depth);
        }
        if let Some(rest) = path.strip_prefix("self::") { return self.resolve_(module, rest, depth + 1); }
        if let Some(rest) = path.strip_prefix("super::") {
            let up = module.rsplit_once("::").map(|x| x.0).unwrap_or("");
            return self.resolve_(up, rest, depth + 1);
        }
        if let Some((first, rest)) = path.split_once("::") {
            if let Some(u) = self.uses.get(module).and_then(|u| u.get(first)) {
                return self.resolve_(module, &format!("{u}::{rest}"), depth + 1);
            }
            return self.resolve_(module, &format!("crate::{}", join(module, path)), depth + 1);
        }
        self.named(module, path, depth)
    }

    fn named(&self, module: &str, name: &str, depth: usize) -> Option<String> {
        let full = join(module, name);
        if self.types.contains(&full) { return Some(full); }
        if let Some(u) = self.uses.get(module).and_then(|u| u.get(name)) {
            if u != name {
                if let Some(x) = self.resolve_(module, u, depth + 1) { return Some(x); }
            }
        }
        for g in self.globs.get(module).into_iter().flatten() {
            if let Some(x) = self.resolve_(module, &format!("{g}::{name}"), depth + 1) { return Some(x); }
        }
        None
    }

    pub fn load_funs(&mut self, module: &str, items: &[Item]) {
        for item in items {
            match item {
                Item::Mod(m) => {
                    if is_test(&m.attrs) { continue; }
                    if let Some((_, items)) = &m.content {
                        self.load_funs(&join(module, &m.ident.to_string()), items);
                    }
                }
                Item::Impl(i) => {
                    let name = match &*i.self_ty {
                        Type::Path(p) => path_str(&p.path),
                        t => crate::norm::ts(t).replace(' ', ""),
                    };
                    let owner = self.resolve(module, &name);
                    if let Some((_, path, _)) = &i.trait_ {
                        if is_auto(&i.attrs) {
                            if let Some(o) = &owner {
                                self.derives.entry(o.clone()).or_default().insert(path.segments.last().unwrap().ident.to_string());
                            }
                            continue;
                        }
                        if dropped_trait(path) { continue; }
                    }
                    let trait_name = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let short = name.rsplit("::").next().unwrap().to_string();
                    for f in &i.items {
                        if let ImplItem::Fn(f) = f {
                            let id = match &trait_name {
                                Some(t) => format!("{}::<{t}>::{}", join(module, &short), f.sig.ident),
                                None => format!("{}::{}", join(module, &short), f.sig.ident),
                            };
                            self.add(id, module, owner.clone(), trait_name.clone(), &f.sig, &f.block, &i.generics);
                        }
                    }
                }
                Item::Trait(t) => {
                    for f in &t.items {
                        if let TraitItem::Fn(f) = f {
                            if let Some(b) = &f.default {
                                let id = format!("{}::<{}>::{}", module, t.ident, f.sig.ident);
                                self.add(id, module, None, Some(t.ident.to_string()), &f.sig, b, &t.generics);
                            }
                        }
                    }
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    self.add(join(module, &f.sig.ident.to_string()), module, None, None, &f.sig, &f.block, &Generics::default());
                }
                _ => {}
            }
        }
    }

    fn add(&mut self, id: String, module: &str, owner: Option<String>, trait_name: Option<String>, sig: &Signature, block: &Block, generics: &Generics) {
        let contracted = matches!(trait_name.as_deref(), Some("Read" | "Default" | "Table" | "From")) && owner.is_some()
            || trait_name.as_deref() == Some("Table")
            || self.trait_contracts.contains(&id);
        self.funs.insert(id.clone(), Fun { id, module: module.into(), owner, trait_name, sig: sig.clone(), block: block.clone(), generics: generics.clone(), contracted });
    }
}
