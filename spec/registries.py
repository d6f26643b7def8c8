"""The registered scripts, languages and features (C10): the specification, from registry.json, and the contracts."""
import json
import os

KINDS = {"Script": "layout::script", "Language": "layout::language", "Feature": "layout::feature"}
ONLY = [m + "::" + k for k, m in KINDS.items()]
CHUNK = 12


def rows(kind, features):
    reg = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "registry.json")))
    return [r for r in reg[kind] if not r["feature"] or r["feature"] in features]


def number(tag):
    return int.from_bytes(tag.encode(), "big")


def text(s):
    return json.dumps(s, ensure_ascii=False)


def specs(features):
    o = []
    for k, m in KINDS.items():
        o.append(f"pub mod specs_{k} {{\nuse vstd::prelude::*;\nuse crate::truetype::{{tag32, Tag}};")
        t, rs = f"crate::{m}::{k}", rows(k, features)
        # Hidden, as unfolding it takes long; what it says about each value is a lemma.
        o.append(f"/// The tag that a value stands for.\n#[verifier::opaque]\npub open spec fn {k}_tag(v: {t}) -> int {{\n    match v {{")
        o += [f"        {t}::{r['variant']} => {number(r['tag'])}," for r in rs] + [f"        {t}::Other(x) => tag32(x),\n    }}\n}}"]
        o.append(f"/// The registered tags.\n#[verifier::opaque]\npub open spec fn {k}_known(t: int) -> bool {{\n    "
                 + "\n    || ".join(f"t == {n}" for n in sorted({number(r["tag"]) for r in rs})) + "\n}")
        o.append(f"/// The registered names.\npub open spec fn {k}_name(v: {t}) -> Option<&'static str> {{\n    match v {{")
        o += [f"        {t}::{r['variant']} => Some({text(r['name'])})," for r in rs] + [f"        {t}::Other(x) => None,\n    }}\n}}"]
        if k == "Language":
            o.append(f"/// The registered codes.\npub open spec fn {k}_codes(v: {t}) -> &'static str {{\n    match v {{")
            o += [f"        {t}::{r['variant']} => {text(r['codes'])}," for r in rs] + [f"        {t}::Other(x) => \"\",\n    }}\n}}"]
        fact = lambda r: f"{k}_tag({t}::{r['variant']}) == {number(r['tag'])}"
        chunks = [rs[i:i + CHUNK] for i in range(0, len(rs), CHUNK)]
        for n, c in enumerate(chunks):
            o.append(f"pub proof fn {k}_tags_{n}()\n    ensures " + ", ".join(map(fact, c)) + f",\n{{ reveal({k}_tag); }}")
        other = f"forall|x: Tag| #[trigger] {k}_tag({t}::Other(x)) == tag32(x)"
        o.append(f"pub proof fn {k}_other()\n    ensures {other},\n{{ reveal({k}_tag); }}")
        o.append(f"/// What the tag of each value is.\npub proof fn {k}_tags()\n    ensures " + ", ".join(map(fact, rs)) + f", {other},\n{{ {k}_other(); "
                 + " ".join(f"{k}_tags_{n}();" for n in range(len(chunks))) + " }\n}")
    return "\n".join(o) + "\n"


def contracts():
    c = {}
    for k, m in KINDS.items():
        s = f"crate::specs_{k}::{k}"
        c[f"{m}::{k}::from_tag"] = [f"""
        ensures /*@kind:match*/ {s}_tag(r) == crate::truetype::tag32(*%0),
            /*@kind:match*/ r is Other ==> !{s}_known(crate::truetype::tag32(*%0)),
        """, f"proof {{ {s}_tags(); reveal({s}_known); }}"]
        c[f"{m}::{k}::name"] = [f"ensures /*@kind:match*/ r == {s}_name(*self),", ""]
        if k == "Language":
            c[f"{m}::{k}::codes"] = [f"ensures /*@kind:match*/ r@ == crate::typeface::parts_of({s}_codes(*self)),", ""]
        c[f"{m}::Tag::<From>::from"] = [f"ensures /*@kind:match*/ crate::truetype::tag32(r) == {s}_tag(%0),", f"proof {{ {s}_tags(); }}"]
    return c
