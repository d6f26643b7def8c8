"""Expansion, extraction and verification of the crate."""
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "spec"))
REPO = os.environ.get("OPENTYPE_REPO", "/repo")
BUILD = os.environ.get("OPENTYPE_BUILD", os.path.join(ROOT, "build"))
CONFIGS = {"default": [], "all": ["ignore-incomplete-directories", "ignore-incomplete-marks", "ignore-invalid-checksums", "default-language"]}
OPTIONS = CONFIGS["all"]
# The other combinations of features.
MIXED = [f"mix{n}" for n in sorted(range(1, 2 ** len(OPTIONS) - 1), key=lambda n: (n.bit_count(), n))]


def features(config):
    if config in CONFIGS:
        return CONFIGS[config]
    return [f for i, f in enumerate(OPTIONS) if int(config[3:]) >> i & 1]


DROP = ["layout::script::Script", "layout::language::Language", "layout::feature::Feature"]


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    return subprocess.run(cmd, text=True, **kw)


def build_otv():
    d = os.path.join(ROOT, "tools", "otv")
    t = os.path.join(BUILD, "otv")
    r = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", t])
    if r.returncode:
        raise RuntimeError("cannot build otv:\n" + r.stderr)
    return os.path.join(t, "debug", "otv")


def expand(config):
    f = features(config)
    cmd = ["cargo", "+nightly", "rustc", "--offline", "-q", "--lib", "--target-dir", os.path.join(BUILD, "expand"), "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    if f:
        cmd += ["--features", ",".join(f)]
    r = run(cmd + ["--", "-Zunpretty=expanded"])
    if r.returncode or "mod layout" not in r.stdout:
        return None, r.stderr
    out = os.path.join(BUILD, f"expanded-{config}.rs")
    part = f"{out}.{os.getpid()}.{threading.get_ident()}"
    open(part, "w").write(r.stdout)
    os.replace(part, out)
    return out, None


MARK = re.compile(r"/\*@dep (\w+) (\S+)\*/(.*?)/\*@body\*/", re.S)
LOCK = threading.Lock()
_bodies = {}
stay = [False]
differ = []
# What otv puts in the place of stay.
STAY = "fnstay<F,T>(&mutself,mutbody:F)->Result<T>whereF:FnMut(&mutSelf)->Result<T>{letposition=self.position()?;letresult=body(self);self.jump(position)?;result}"


def bodies(otv):
    """The bodies of the functions of the dependencies that are under contract, from their sources: (crate, function) -> (body or None, why not)."""
    import deps
    with LOCK:
        if _bodies:
            return _bodies
        text = "".join(open(os.path.join(ROOT, "spec", n)).read() for n in ("prelude.rs", "truetype.rs"))
        wanted = {}
        for m in MARK.finditer(text):
            wanted.setdefault(m.group(1), []).append(m.group(2))
        for crate, ids in wanted.items():
            r = run(["cargo", "+nightly", "rustc", "--offline", "-q", "--lib", "-p", crate, "--target-dir", os.path.join(BUILD, "expand"),
                     "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--", "-Zunpretty=expanded"])
            found = {}
            if r.returncode == 0 and len(r.stdout) > 1000:
                base = os.path.join(BUILD, f"dep-{crate}")
                open(base + ".rs", "w").write(r.stdout)
                if crate == "typeface":
                    stay[0] = STAY in re.sub(r"\s+", "", r.stdout)
                plain = re.sub(r"\s+", "", r.stdout)
                differ.extend(f"type {t}" for c, t in deps.TYPES if c == crate and re.sub(r"\s+", "", t) not in plain)
                meta = dict(stay=stay[0], reveals={}, contracts={k: ["", v] for k, v in deps.INTRO.items()}, skip={}, chains={}, bits={}, loops=deps.LOOPS, bodies=ids)
                json.dump(meta, open(base + "-meta.json", "w"))
                q = run([otv, base + ".rs", base + "-meta.json", base + ".json", base + "-map.json"])
                if q.returncode == 0:
                    found = json.load(open(base + ".json"))
            for i in ids:
                x = found.get(i, dict(status="unsupported", reason="the source of the dependency cannot be had"))
                body = None
                if x["status"] == "verified":
                    body = x["body"]
                    for a, b in deps.PATHS:
                        body = re.sub(a, b.replace("%s", crate), body)
                _bodies[crate, i] = (body, x["reason"])
        return _bodies


def fill(text, otv, skip):
    """Puts the bodies of functions of dependencies where their contracts stand; without a body, a contract is assumed."""
    found = bodies(otv)

    def one(m):
        key = (m.group(1), m.group(2))
        body = found[key][0]
        if body is None or "::".join(key) in skip:
            return f"/*@assumed {key[0]}::{key[1]}*/ #[verifier::external_body]{m.group(3)}{{ unimplemented!() }} /*@end*/"
        return f"/*@dep {key[0]}::{key[1]}*/{m.group(3)}{body} /*@end*/"
    return MARK.sub(one, text)


def generate(config, otv, expanded, skip=None, probe=False, suffix="", registries=False, placement=False):
    """Writes the program for Verus; returns its path and the map of its functions."""
    import specgen
    import contracts
    import formats
    bodies(otv)
    meta = dict(stay=stay[0], reveals={}, contracts={}, defaults=[], walues=[], skip=skip or {}, drop=DROP, only=[], probe=probe, types=[], chains={}, bits={})
    if registries:
        import registries as reg
        specs, suffix = reg.specs(features(config)), "-registries" + suffix
        meta.update(contracts=reg.contracts(), drop=[], only=reg.ONLY)
    else:
        g = specgen.Gen(features(config))
        specs = g.all()
        if placement:
            import placement as pl
            specs, suffix = specs + "\n" + pl.lemmas(g), "-placement" + suffix
            meta["alike"] = True
        meta.update(reveals=g.reveals(), contracts=contracts.contracts(features(config)), defaults=g.types_with_default(),
                    walues=[s.module + "::" + s.name for s in formats.T if s.params], chains=g.chains(), bits=contracts.bits())
    mp = os.path.join(BUILD, f"meta-{config}{suffix}.json")
    json.dump(meta, open(mp, "w"))
    code, emap = os.path.join(BUILD, f"code-{config}{suffix}.rs"), os.path.join(BUILD, f"map-{config}{suffix}.json")
    r = run([otv, expanded, mp, code, emap])
    if r.returncode:
        raise RuntimeError("otv failed: " + r.stderr)
    deps = open(os.path.join(ROOT, "spec", "truetype.rs")).read()
    if registries:      # of the dependencies only the tag
        deps = deps[:deps.index("pub mod tables {")] + "}\n}\n"
    head = fill(open(os.path.join(ROOT, "spec", "prelude.rs")).read() + deps, otv, skip or {})
    # Where the functions of the dependencies are.
    own = []
    for x in re.finditer(r"/\*@dep (\S+)\*/.*?/\*@end\*/", head, re.S):
        own.append(dict(id=x.group(1), start=head.count("\n", 0, x.start()) + 2, end=head.count("\n", 0, x.end()) + 2, status="verified", reason="",
                        loops=x.group(0).count("loop_isolation"), inlined=[], kind="dependency"))
    head += "verus! {\n" + specs + "\n"
    text = head + open(code).read() + "}\nfn main() {}\n"
    # Verus mistreats raw identifiers.
    text = re.sub(r"\br#(?=[a-z_])", "r_", text)
    out = os.path.join(BUILD, f"gen-{config}{suffix}.rs")
    open(out, "w").write("#![allow(unused, non_camel_case_types, non_snake_case, dead_code)]\n" + text)
    m = json.load(open(emap))
    base = head.count("\n") + 1
    for f in m["functions"]:
        f["start"] += base
        f["end"] += base
    m["dependencies"] = own
    m["assumed"] = re.findall(r"/\*@assumed (\S+)\*/", head) + differ
    return out, m


if __name__ == "__main__":
    otv = build_otv()
    c = sys.argv[1] if len(sys.argv) > 1 else "default"
    e, err = expand(c)
    out, m = generate(c, otv, e, registries="registries" in sys.argv, placement="placement" in sys.argv)
    print(out, len(m["functions"]))
    for f in m["functions"]:
        if f["status"] != "verified":
            print("UNSUPPORTED", f["id"], f["reason"])
    print(*m["dropped"], sep="\n")
