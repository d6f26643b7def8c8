"""Generates and builds the harness that compares the crate with the oracle."""
import json
import os
import re
import pipeline
import formats
import specgen

RENAME = {}
U = {"gpos": "tables::glyph_positioning::Type", "gsub": "tables::glyph_substitution::Type"}


def public(full):
    """The public path of a structure."""
    base = full.split("<")[0]
    p = base.replace("::element::", "::").replace("layout::directory::", "layout::")
    if base.startswith("truetype::"):
        return "opentype::" + p
    if full.endswith(">"):
        return "opentype::" + p + "<opentype::" + full.split("<")[1]
    return "opentype::" + p


def roots(g):
    """All the types that may be read: (name, owner, structure)."""
    out = []
    for s in formats.T:
        full = s.module + "::" + s.name
        if s.module.startswith("truetype") or full == "font::Font":
            continue
        owner = ",".join([s.owner] + formats.ALSO.get(full, []))
        if s.generic:
            for u in U.values():
                out.append((f"{full}<{u}>", owner, s))
        else:
            out.append((full, owner, s))
    return out


def reader(name, s):
    T = public(name)
    show = 'format!("{v:?}")'
    if s.name == "ColorPalettes":
        show = 'format!("ColorPalettes {{ header: {:?}, colors: {:?} }}", v.header, v.colors)'
    if not s.params:
        take = f"t.take::<{T}>()"
    else:
        ps = []
        for j, (n, t) in enumerate(s.params):
            if t in ("u16", "u64", "usize"):
                ps.append(f"p[{j}] as {t}")
            else:
                ps.append(f"{public(s.module + '::' + t)}(p[{j}] as u16)")
        p = ps[0] if len(ps) == 1 else "(" + ", ".join(ps) + ")"
        take = f"t.take_given::<{T}>({p})"
    return f"|t, p| {{ let v = {take}?; Ok({show}) }}"


def q(s):
    return json.dumps(s, ensure_ascii=False)


def generate(config, skip=()):
    """The part of the harness that refers to the items of the crate."""
    g = specgen.Gen(pipeline.features(config))
    g.all()
    out = ["pub const READERS: &[Reader] = &["]
    for name, owner, s in roots(g):
        pos = "true" if any(n == "position" for n, _ in s.params) else "false"
        if name in skip:
            continue
        out.append(f"    Reader {{ name: {q(name)}, owner: {q(owner)}, position: {pos}, framed: {str(g.framed(s)).lower()}, read: {reader(name, s)} }},")
    out.append("];")
    out.append("pub const FLAGS: &[FlagWord] = &[")
    for s in formats.T:
        if s.kind == "flags":
            full = s.module + "::" + s.name
            bits = ", ".join(f"({q(b)}, {m}, |w| {public(full)}(w).{b}())" for b, m in s.bits)
            out.append(f"    FlagWord {{ name: {q(full)}, invalid: {s.invalid}, bits: &[{bits}], is_invalid: |w| {public(full)}(w).is_invalid(),"
                       f" back: |w| u16::from({public(full)}(w)) }},")
    out.append("];")
    reg = json.load(open(os.path.join(pipeline.ROOT, "spec", "registry.json")))
    for kind, rows in reg.items():
        out.append(f"pub fn registry_{kind.lower()}() -> Vec<Entry<opentype::layout::{kind}>> {{ vec![")
        for r in rows:
            if r["feature"] and r["feature"] not in pipeline.features(config):
                continue
            value = f"opentype::layout::{kind}::{r['variant']}"
            if value in skip:       # there is no such variant: whatever the tag stands for then
                value = f"opentype::layout::{kind}::from_tag(&opentype::truetype::Tag(*b{q(r['tag'])}))"
            codes = [c for c in r.get("codes", "").split(", ") if c]
            out.append(f"    Entry {{ value: {value}, tag: *b{q(r['tag'])}, name: {q(r['name'])}, codes: &{json.dumps(codes)} }},")
        out.append("] }")
    import contracts
    out.append("pub fn table_tags() -> Vec<(&'static str, [u8; 4], opentype::truetype::Tag)> { vec![")
    for t, tag in contracts.TABLES.items():
        out.append(f"    ({q(t)}, *b{q(tag.decode())}, <opentype::{t} as opentype::Table>::tag()),")
    out.append("] }")
    return "\n".join(out) + "\n"


KNOWN = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 32, 43, 64, 128, 224, 32768, 65280, 65534, 65535, 65536, 65538, 65539}


def literals(expanded):
    """The numbers in the source of the crate, as interesting values."""
    src = []
    for d, _, fs in os.walk(os.path.join(pipeline.REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                src.append(open(os.path.join(d, f), errors="replace").read())
    text = re.sub(r'"[^"\n]*"', '""', "\n".join(src))
    text = re.sub(r"//[^\n]*", "", text)
    vs = set()
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)", text):
        try:
            vs.add(int(m.group(1).replace("_", ""), 0))
        except ValueError:
            try:
                vs.add(int(m.group(1).replace("_", "")))
            except ValueError:
                pass
    vs = sorted(v for v in vs if v < 2 ** 32)
    # Numbers that a change has brought along are tried more often.
    new = [v for v in vs if v not in KNOWN]
    return vs + new * (len(KNOWN) // max(1, len(new)))


def manifest(b):
    """The manifest to build from: the committed one, unless another tree than /repo is looked at."""
    m = os.path.join(pipeline.ROOT, "harness", "Cargo.toml")
    if pipeline.REPO == "/repo":
        return m
    d = os.path.join(b, "crate")
    os.makedirs(d, exist_ok=True)
    t = open(m).read().replace('"/repo"', f'"{pipeline.REPO}"')
    if "[[bin]]" not in t:
        t += f'\n[[bin]]\nname = "harness"\npath = "{pipeline.ROOT}/harness/src/main.rs"\n'
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    lock = os.path.join(pipeline.ROOT, "harness", "Cargo.lock")
    open(os.path.join(d, "Cargo.lock"), "w").write(open(lock).read())
    return os.path.join(d, "Cargo.toml")


def build(config):
    """Builds the harness.  Returns (binary, types left out) or (None, error)."""
    b = os.path.join(pipeline.BUILD, "harness-" + config)
    os.makedirs(b, exist_ok=True)
    g = specgen.Gen(pipeline.features(config))
    g.all()
    spec = os.path.join(b, "spec.json")
    json.dump(g.json(), open(spec, "w"))
    json.dump(literals(None), open(os.path.join(b, "literals.json"), "w"))
    gen = os.path.join(b, "gen.rs")
    skip = set()
    for _ in range(4):
        text = generate(config, skip)
        if not os.path.exists(gen) or open(gen).read() != text:
            open(gen, "w").write(text)
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", manifest(b),
               "--target-dir", os.path.join(b, "target")]
        if pipeline.features(config):
            cmd += ["--features", config if config == "all" else ",".join("opentype/" + f for f in pipeline.features(config))]
        r = pipeline.run(cmd, env=dict(os.environ, HARNESS_GEN=gen, RUSTFLAGS="-Awarnings"))
        if r.returncode == 0:
            return os.path.join(b, "target", "debug", "harness"), sorted(skip)
        lines = text.split("\n")
        more = set()
        for m in re.finditer(r"gen\.rs:(\d+):", r.stderr):
            n = re.match(r'    Reader \{ name: "([^"]+)"', lines[int(m.group(1)) - 1]) or re.match(r'    Entry \{ value: (\S+),', lines[int(m.group(1)) - 1])
            if n:
                more.add(n.group(1))
        if not more - skip:
            return None, r.stderr
        skip |= more
    return None, r.stderr


if __name__ == "__main__":
    import sys
    print(build(sys.argv[1] if len(sys.argv) > 1 else "default"))
