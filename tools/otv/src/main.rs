//! otv: extracts the functions of the crate from its expanded source and puts them into the form that Verus
//! accepts, next to their contracts.
//!
//! otv EXPANDED META.json OUT.rs MAP.json
mod emit;
mod inv;
mod load;
mod norm;
mod print;
mod shape;

use std::collections::{HashMap, HashSet};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let source = std::fs::read_to_string(&a[1]).unwrap();
    let meta: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let mut file = match syn::parse_file(&source) { Ok(f) => f, Err(e) => { eprintln!("cannot parse: {e}"); std::process::exit(3) } };
    norm::note_bytes(&file);
    shape::shape(&mut file);
    let set = |k: &str| -> HashSet<String> { meta[k].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let mut m = emit::Meta { reveals: HashMap::new(), contracts: HashMap::new(), defaults: set("defaults"), walues: set("walues"), skip: HashMap::new(), drop: set("drop"), only: set("only"), bits: HashMap::new(), loops: HashMap::new(), chains: HashMap::new(), probe: meta["probe"].as_bool().unwrap_or(false), alike: meta["alike"].as_bool().unwrap_or(false) };
    for (k, v) in meta["reveals"].as_object().unwrap() { m.reveals.insert(k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect()); }
    for (k, v) in meta["chains"].as_object().unwrap() { m.chains.insert(k.clone(), v.as_str().unwrap().into()); }
    for (k, v) in meta["contracts"].as_object().unwrap() { m.contracts.insert(k.clone(), (v[0].as_str().unwrap().into(), v[1].as_str().unwrap().into())); }
    for (k, v) in meta["skip"].as_object().unwrap() { m.skip.insert(k.clone(), v.as_str().unwrap().into()); }
    if let Some(l) = meta["loops"].as_object() { for (k, v) in l {
        m.loops.insert(k.clone(), v.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into())).collect());
    } }
    for (k, v) in meta["bits"].as_object().unwrap() { m.bits.insert(k.clone(), v.as_u64().unwrap()); }
    norm::STAY.store(meta["stay"].as_bool().unwrap_or(true), std::sync::atomic::Ordering::Relaxed);
    let mut krate = load::Crate::default();
    krate.trait_contracts = m.contracts.keys().cloned().collect();
    krate.load("", &file.items);
    for x in set("types") { krate.types.insert(x); }
    krate.load_funs("", &file.items);
    std::panic::set_hook(Box::new(|_| {}));
    let mut e = emit::Emit { krate: &krate, meta: &m, out: String::new(), entries: vec![], dropped: vec![] };
    let bodies = meta["bodies"].as_array().cloned().unwrap_or_default();
    if !bodies.is_empty() {
        // Only the bodies of some functions.
        let mut all = serde_json::Map::new();
        for id in bodies.iter().map(|x| x.as_str().unwrap()) {
            if !krate.funs.contains_key(id) { all.insert(id.into(), serde_json::json!({"status": "unsupported", "reason": "there is no such function"})); continue; }
            e.out.clear();
            e.entries.clear();
            e.function(id, None);
            let x = &e.entries[0];
            let body = e.out.split_once("\n{").map(|b| format!("{{{}", b.1.trim_end())).unwrap_or_default();
            all.insert(id.into(), serde_json::json!({"status": x.status, "reason": x.reason, "body": body, "loops": x.loops, "inlined": x.inlined}));
        }
        std::fs::write(&a[3], serde_json::to_string_pretty(&all).unwrap()).unwrap();
        return;
    }
    e.module("", &file.items);
    std::fs::write(&a[3], &e.out).unwrap();
    let entries: Vec<_> = e.entries.iter().map(|x| serde_json::json!({"id": x.id, "start": x.start, "end": x.end, "status": x.status, "reason": x.reason, "loops": x.loops, "inlined": x.inlined, "kind": x.kind})).collect();
    std::fs::write(&a[4], serde_json::to_string_pretty(&serde_json::json!({"functions": entries, "dropped": e.dropped})).unwrap()).unwrap();
}
