"""Runs the verifier over the generated program and tells which obligations failed."""
import glob
import json
import os
import re
import shutil
import time
import pipeline
import formats
import registries

GENUINE = {"accept", "match", "fault", "reject", "frame", "checksum", "absent", "default", "framed", "panic"}


def owners():
    """Structure -> property."""
    out = {}
    for s in formats.T:
        out[s.module + "::" + s.name] = s.owner
    return out


OWN = owners()
FUNCTIONS = {  # the functions that are not readers
    "font::Font::exists": ["C04"], "font::Font::position": ["C04", "C05"], "font::Font::take": ["C04", "C05"], "font::Font::take_given": ["C04", "C05"],
    "font::Font::read": ["C06"], "file::File::read": ["C06"], "accept": ["C06"],
    "layout::feature::Features::get": ["C09"], "layout::script::Scripts::get": ["C09"], "layout::script::Record::get": ["C09"],
    "tables::color_palettes::ColorPalettes::iter": ["C21"],
}
for _k, _m in registries.KINDS.items():
    for _f in (f"{_m}::{_k}::from_tag", f"{_m}::{_k}::name", f"{_m}::{_k}::codes", f"{_m}::Tag::<From>::from"):
        FUNCTIONS[_f] = ["C10"]
ALSO, P_ = formats.ALSO, formats.POSITIONING
ALSO_METHODS = {"layout::lookup::Flags::has_mark_filtering": ["C11"], "layout::lookup::Flags::is_invalid": ["C11"],
                "tables::font_variations::AxisFlags::is_invalid": ["C20"], "tables::font_variations::InstanceFlags::is_invalid": ["C20"]}
LEMMAS = {"lemma_palettes": ["C21"], "lemma_features": ["C09"], "lemma_scripts": ["C09"], "lemma_languages": ["C09"]}


def properties(fid, kind=""):
    """The properties that a function serves."""
    if fid in FUNCTIONS:
        ps = FUNCTIONS[fid]
        if kind == "checksum" or (kind == "reject" and fid.startswith("font::")):
            return [p for p in ps if p == "C05"] or ps
        if kind in ("match", "absent") and fid.startswith("font::Font::") and "C05" in ps:
            return ["C04"]
        return ps
    if "<Table>" in fid:
        return ["C04"]
    base = fid.split("::<")[0]
    if base in OWN:
        return [OWN[base]] + ALSO.get(base, [])
    base = "::".join(fid.split("::")[:-1])
    if base in OWN:
        st = base
        if any(s.kind == "flags" and s.module + "::" + s.name == st for s in formats.T):
            return ["C22"] + (ALSO[st] if st == P_ + "element::Flags" else ALSO_METHODS.get(fid, []))
        return [OWN[st]] + ALSO.get(st, [])
    # Something else in a module: whatever lives there.
    m = base
    while m:
        ps = sorted({p for t, p in OWN.items() if t.startswith(m + "::")})
        if ps:
            return ps
        m = "::".join(m.split("::")[:-1])
    return []


class Result:
    def __init__(self, config):
        self.config = config
        self.ok = False             # Verus decided something
        self.failed = []            # dicts: function, kind, message, line, text, genuine
        self.undecided = {}         # function -> reason
        self.functions = {}         # id -> entry
        self.obligations = {}       # id -> number
        self.lemmas = {}            # name -> number
        self.times = {}             # id -> micros
        self.dependencies = {}      # functions of the dependencies: id -> entry
        self.assumed = []           # those whose contracts are assumed after all
        self.seconds = 0.0
        self.solver_ms = 0
        self.verified = 0
        self.errors = 0
        self.note = ""
        self.cmd = ""
        self.program = ""
        self.again = None           # what a second look needs


def call(path, extra=(), timeout=400, threads=8):
    """Runs the verifier.  The solver may use up all memory on what it cannot decide, so that it is called with a limit."""
    cmd = ["verus", path, "--num-threads", str(threads), "--output-json", "--time-expanded", "--multiple-errors", "8", *extra, "--", "--error-format=json"]
    t = time.time()
    try:
        r = pipeline.run(["timeout", "-k", "5", str(timeout)] + cmd, env=dict(os.environ, VERUS_Z3_PATH=os.path.join(pipeline.ROOT, "tools", "z3"), RUST_BACKTRACE="0", RUST_MIN_STACK="268435456"))
    except OSError as e:
        return None, [], str(e), cmd, time.time() - t
    diags, raw = [], []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
                continue
            except ValueError:
                pass
        if l.strip():
            raw.append(l)
    out = None
    i = r.stdout.find("{")
    if i >= 0:
        try:
            out = json.loads(r.stdout[i:])
        except ValueError:
            pass
    return out, [d for d in diags if d.get("level") == "error"], "\n".join(raw), cmd, time.time() - t


def locate(funs, line):
    # A function's last line is the first one of the next function's range.
    found = None
    for f in funs:
        if f["start"] <= line <= f["end"] and (found is None or f["start"] >= found["start"]):
            found = f
    return found


def kind_of(text):
    m = re.search(r"/\*@kind:(\w+)\*/", text)
    return m.group(1) if m else None


def judge(d, funs, lines):
    """One error of the verifier -> (function entry or None, kind, the text of the obligation)."""
    msg = d["message"]
    spans = d.get("spans", [])
    mine = [s for s in spans if s["file_name"].endswith(".rs") and "gen-" in os.path.basename(s["file_name"])]
    fun = None
    for s in sorted(mine, key=lambda s: not s["is_primary"]):
        fun = locate(funs, s["line_start"])
        if fun:
            break
    # The clause: of the spans the one that carries a kind.
    kind, text, place = None, "", mine[0]["line_start"] if mine else 0
    for s in mine:
        t = lines[s["line_start"] - 1]
        # A clause may span lines and its kind lies before it.
        for l in range(s["line_start"], max(s["line_start"] - 4, 0), -1):
            if kind_of(lines[l - 1]) and (l == s["line_start"] or "ensures" not in lines[l] and not kind_of(lines[s["line_start"] - 1])):
                before = lines[l - 1]
                # Several on one line: the last one that begins before the span.
                ks = [(m.start(), m.group(1)) for m in re.finditer(r"/\*@kind:(\w+)\*/", before)]
                if l == s["line_start"]:
                    ks = [k for k in ks if k[0] < s["column_start"]] or ks[:1]
                kind, text = kind or ks[-1][1], text or before.strip()
                break
        if fun and fun["start"] <= s["line_start"] <= fun["end"]:
            place = s["line_start"]
        elif not text:
            text = t.strip()
    low = msg.lower()
    if "resource limit" in low or "rlimit" in low or "timed out" in low:
        return fun, "limit", text, place
    if "overflow" in low or "underflow" in low or "division by zero" in low or "divide by zero" in low or "out of bounds" in low or "may fail to meet" in low:
        return fun, "panic", text, place
    if "precondition" in low:
        ext = [s for s in spans if s not in mine]
        if ext and not kind:
            return fun, "panic", (ext[0]["text"][0]["text"].strip() if ext[0].get("text") else "a precondition of the standard library"), place
        return fun, kind or "internal", text, place
    if "postcondition" in low:
        return fun, kind or "internal", text, place
    if "invariant" in low or "decreases" in low or "assert" in low or "recommend" in low:
        return fun, "internal", text, place
    return fun, "other", text, place


def verify(config, otv, seed=0, registry=False):
    """Everything that Verus says about one configuration of the crate, or about the registries in it."""
    r = Result(config)
    t0 = time.time()
    expanded, err = pipeline.expand(config)
    if not expanded:
        r.note = "the crate cannot be expanded: " + (err or "")[-1500:]
        return r
    skip = {}
    for attempt in range(8):
        try:
            path, m = pipeline.generate(config, otv, expanded, skip, registries=registry)
        except RuntimeError as e:
            r.note = str(e)[-1500:]
            return r
        r.program = path
        funs = m["functions"]
        r.functions = {f["id"]: f for f in funs}
        r.dependencies, r.assumed = {f["id"]: f for f in m["dependencies"]}, m["assumed"]
        for f in funs:
            if f["status"] != "verified":
                r.undecided[f["id"]] = f["reason"] or "not translated"
        logs = path + ".log"
        shutil.rmtree(logs, ignore_errors=True)
        extra = ["--log", "air", "--log-dir", logs]
        if registry:
            extra += ["--rlimit", "60"]
        if seed:
            extra += ["--smt-option", f"smt.random_seed={seed}"]
        out, errors, raw, cmd, s = call(path, extra)
        r.cmd = " ".join(cmd)
        r.seconds += s
        lines = open(path).read().split("\n")
        vr = (out or {}).get("verification-results", {})
        compiled = out is not None and not vr.get("encountered-vir-error", False) and vr.get("verified", 0) + vr.get("errors", 0) > 0
        if compiled:
            # A function of a dependency that is not proved is relied upon.
            more = {f["id"]: "not proved" for d in errors for f in [of_dependency(r, d)] if f}
            if not more or attempt == 7:
                break
            skip.update(more)
            continue
        # Functions that the verifier does not accept are left out, and decided otherwise.
        more = {}
        for d in errors:
            for s in d.get("spans", []):
                f = locate(funs, s["line_start"]) or locate(m["dependencies"], s["line_start"])
                if f and f["id"] not in skip:
                    more[f["id"]] = "not accepted by the verifier: " + d["message"][:300]
        if not more:
            if "panicked" in raw or "thread '" in raw:
                return by_module(r, path, funs, lines, raw, t0)
            r.note = "the verifier does not accept the program: " + "; ".join(d["message"][:300] for d in errors[:4]) + raw[-800:]
            r.ok = False
            r.undecided = {f["id"]: r.note[:200] for f in funs}
            return r
        skip.update(more)
    else:
        r.note = "too many functions that the verifier does not accept"
        r.undecided = {f["id"]: r.note for f in funs}
        return r
    r.ok = True
    for k, v in skip.items():
        if k in r.functions:
            r.undecided[k] = v
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    collect(r, errors, funs, lines)
    account(r, out, logs)
    r.again = (path, lines) if r.failed and not seed else None
    r.seconds = time.time() - t0
    return r


def placement(config, otv, seed=0):
    """The lemmas that tell that the specifications do not depend on where a structure lies, and that they determine what is read.
    They depend on the crate only through the definitions of its structures."""
    r = Result(config)
    t0 = time.time()
    expanded, err = pipeline.expand(config)
    if not expanded:
        r.note = "the crate cannot be expanded: " + (err or "")[-1500:]
        return r
    path, m = pipeline.generate(config, otv, expanded, placement=True)
    # The functions of the crate are of no concern here.
    skip = {f["id"]: "left out" for f in m["functions"]}
    path, m = pipeline.generate(config, otv, expanded, skip, placement=True)
    logs = path + ".log"
    shutil.rmtree(logs, ignore_errors=True)
    out, errors, raw, cmd, s = call(path, ["--verify-only-module", "placement", "--verify-only-module", "placement::instances", "--log", "air", "--log-dir", logs]
                                    + (["--smt-option", f"smt.random_seed={seed}"] if seed else []))
    lines = open(path).read().split("\n")
    vr = (out or {}).get("verification-results", {})
    r.program, r.cmd, r.verified, r.errors = path, " ".join(cmd), vr.get("verified", 0), vr.get("errors", 0)
    if not vr.get("verified") or vr.get("encountered-vir-error"):
        r.note = "the verifier does not accept the lemmas: " + "; ".join(d["message"][:200] for d in errors[:4]) + raw[-300:]
    else:
        r.ok = r.errors == 0
        r.note = "" if r.ok else "lemmas that fail: " + ", ".join(sorted({at_impl(lines, d) for d in errors if not d["message"].startswith("aborting")}))
        account(r, out, logs)
    r.seconds = time.time() - t0
    return r


def at_impl(lines, d):
    for s in d.get("spans", []):
        if "proof fn" in lines[s["line_start"] - 1]:
            for l in range(s["line_start"], 0, -1):
                m = re.match(r"impl.* for (\S+) \{", lines[l - 1])
                if m:
                    return m.group(1) + "::" + lemma_at(lines, dict(spans=[s]))
    return lemma_at(lines, d)


def of_dependency(r, d):
    """The function of a dependency that an error is about."""
    if d["message"].startswith("aborting due to"):
        return None
    spans = [s for s in d.get("spans", []) if "gen-" in os.path.basename(s["file_name"])]
    if any(locate(r.functions.values(), s["line_start"]) for s in spans):
        return None
    return next((f for s in spans for f in [locate(r.dependencies.values(), s["line_start"])] if f), None)


def collect(r, errors, funs, lines):
    for d in errors:
        if d["message"].startswith("aborting due to"):
            continue
        f, kind, text, place = judge(d, funs, lines)
        r.failed.append(dict(function=f["id"] if f else lemma_at(lines, d), kind=kind, message=d["message"], obligation=text, line=place,
                             source=lines[place - 1].strip() if place else "", output=d.get("rendered", "")[:3000]))
    internal = {x["function"] for x in r.failed if x["kind"] in ("internal", "other", "limit")}
    for x in r.failed:
        x["genuine"] = x["kind"] in GENUINE and x["function"] not in internal and x["function"] in r.functions
        if x["genuine"] and x["kind"] in ("accept", "match", "reject") and unaided(r.functions[x["function"]], lines):
            x["kind"], x["genuine"] = "internal", False
            internal.add(x["function"])
    for f in internal:
        r.undecided.setdefault(f, "an intermediate assertion or inferred invariant does not hold")
    return r


def unaided(f, lines):
    """Whether a reader of many optional fields in a row is written so that the solver is not led through them one by one.
    That it fails then tells nothing."""
    text = "\n".join(lines[f["start"] - 1:f["end"]])
    n = max((int(k) for k in re.findall(r"typeface::chain_(\d+)", text)), default=0)
    return n > 2 and text.count("take_if (") < n


def lemma_at(lines, d):
    for s in d.get("spans", []):
        for l in range(s["line_start"], 0, -1):
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)", lines[l - 1])
            if m:
                return m.group(1)
    return "?"


def short(fid):
    return re.sub(r"::<\w+>", "", fid)


def account(r, out, logs):
    """Obligations by function, from the queries the verifier makes."""
    names = {}
    for fid in r.functions:
        names.setdefault(short(fid), []).append(fid)
    for p in sorted(glob.glob(os.path.join(logs, "*.air"))):
        cur, fresh = None, False
        for l in open(p, errors="replace"):
            if fresh and l.startswith(";; "):
                m = re.match(r";; .*\.rs:(\d+):", l)
                f = locate(r.dependencies.values(), int(m.group(1))) if m else None
                cur = f["id"] if f else cur
            fresh = False
            if l.startswith(";; ") and l[3:4].isupper():
                m = re.match(r";; (?:Function-Def|Function-Specs|Function-Decl-Check-Recommends|Function-Termination) (\S+)", l)
                cur = m.group(1).split("::", 1)[-1] if m and l.startswith(";; Function-Def") else None
                fresh = cur is not None
            elif cur and "(assert" in l:
                if cur.startswith("table::"):
                    r.obligations["table::*::<Table>::tag"] = r.obligations.get("table::*::<Table>::tag", 0) + 1
                elif cur in r.dependencies:
                    e = r.dependencies[cur]
                    e["obligations"] = e.get("obligations", 0) + 1
                elif cur in names:
                    for fid in names[cur]:
                        r.obligations[fid] = r.obligations.get(fid, 0) + 1
                else:
                    r.lemmas[cur] = r.lemmas.get(cur, 0) + 1
    shutil.rmtree(logs, ignore_errors=True)
    smt = out.get("times-ms", {}).get("smt", {}) if out else {}
    r.solver_ms += smt.get("total", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[-1]
            for fid in names.get(n, [n]):
                r.times[fid] = r.times.get(fid, 0) + f.get("time-micros", 0)


def module_of(fid):
    """The module that a function of the crate lies in."""
    m = fid.split("::<")[0].split("::")
    if "::<" in fid:
        return "::".join(m[:-1])
    return "::".join(m[:-2] if len(m) > 1 and m[-2][:1].isupper() else m[:-1])


def retry(r, total=260):
    """Only what fails again, with more lemmas, more resources and other seeds, has failed."""
    if not r.again:
        return
    t0 = time.time()
    path, lines = r.again
    r.again = None
    funs = list(r.functions.values())
    more, text = path[:-3] + "-more.rs", list(lines)
    variants = {}
    if r.config in pipeline.CONFIGS or r.config in pipeline.MIXED:
        import specgen
        g = specgen.Gen(pipeline.features(r.config))
        g.all()
        variants = g.variants()
    for fid in {x["function"] for x in r.failed if x["function"] in r.functions}:
        e = r.functions[fid]
        for l in range(e["start"] - 1, e["end"]):
            if text[l] == "{":
                text[l] = "{ broadcast use crate::typeface::more;" + "".join(f" proof {{ reveal(crate::specs::{v}); }}" for v in variants.get(fid.split("::<")[0], []))
                break
    with open(more, "w") as f:
        f.write("\n".join(text))
    for program, seed, limit in ((path, 29, 40), (more, 11, 30)):
        left = total - (time.time() - t0)
        if left < 10 or not r.failed:
            break
        mods = sorted({module_of(x["function"]) for x in r.failed if x["function"] in r.functions})
        only = [a for m in mods for a in (("--verify-only-module", m) if m else ("--verify-root",))]
        if any(x["function"] not in r.functions for x in r.failed) or not mods:
            only = []
        out, errors, raw, cmd, s = call(program, [*only, "--rlimit", str(limit), "--smt-option", f"smt.random_seed={seed}"], timeout=min(left, 130))
        if out is None or "verified" not in out.get("verification-results", {}):
            continue
        again = Result(r.config)
        again.functions = r.functions
        collect(again, errors, funs, lines)
        # A function that is proved once is proved; of one that is not, what fails each time.
        bad = {x["function"] for x in again.failed}
        same = {(x["function"], x["kind"], x["line"]) for x in again.failed}
        left = [x for x in r.failed if x["function"] in bad and ((x["function"], x["kind"], x["line"]) in same or x["kind"] == "limit")]
        r.failed = [x for x in left if x["kind"] != "limit" or not any(y["function"] == x["function"] and y["kind"] != "limit" for y in again.failed)]
        have = {(x["function"], x["kind"], x["line"]) for x in r.failed}
        r.failed += [x for x in again.failed if (x["function"], x["kind"], x["line"]) not in have]
        internal = {x["function"] for x in r.failed if x["kind"] in ("internal", "other", "limit")}
        r.undecided = {k: v for k, v in r.undecided.items() if not v.startswith("an intermediate") or k in internal}
        for f in internal:
            r.undecided.setdefault(f, "an intermediate assertion or inferred invariant does not hold")
        for x in r.failed:
            x["genuine"] = x["kind"] in GENUINE and x["function"] not in internal and x["function"] in r.functions
    bad = len({x["function"] for x in r.failed})
    r.verified, r.errors = r.verified + r.errors - bad, bad
    r.seconds += time.time() - t0


def parts(config, otv, registry=False):
    """What a program is made of: of each function its text and the specifications that it may unfold, and the rest piece by piece."""
    import specgen
    expanded, err = pipeline.expand(config)
    if not expanded:
        raise RuntimeError("the crate cannot be expanded: " + (err or "")[-300:])
    path, m = pipeline.generate(config, otv, expanded, suffix="-parts", registries=registry)
    lines = open(path).read().split("\n")
    if registry:        # there everything may be unfolded everywhere
        os.remove(path)
        return {"the whole": {"\n".join(lines)}}
    os.remove(path)
    first = min((f["start"] for f in m["functions"]), default=1) - 1
    head = re.split(r"\n(?=(?:#\[[^\n]*\]\s*)*(?:pub |impl|broadcast|proof|spec|mod |\}))", "\n".join(lines[:first]))
    specs, out = {}, {}
    for x in head:
        n = re.search(r"\bspec fn (\w+_(?:accepts|matches))\b", x)
        if n:
            specs[n.group(1)] = specs.get(n.group(1), "") + x
    out["lemmas"] = {x for x in head if not re.search(r"\bspec fn \w+_(?:accepts|matches)\b", x)}
    g = specgen.Gen(pipeline.features(config))
    g.all()
    seen = {s.module + "::" + s.name: {g.short(g.types[t]) + e for t in g.inline_closure(s) for e in ("_accepts", "_matches")} for s in g.T}
    inside = [False] * (len(lines) + 1)
    for f in m["functions"]:
        # The last line of the range is the first one of what follows.
        body = "\n".join(lines[f["start"] - 1:f["end"] - 1])
        base = f["id"].split("::<")[0]
        names = seen.get(base, set()) | seen.get("::".join(base.split("::")[:-1]), set()) | set(re.findall(r"\b\w+_(?:accepts|matches)\b", body))
        out.setdefault(f["id"], set()).add((body, "\n".join(specs.get(n, "") for n in sorted(names)), f["status"]))
        for i in range(f["start"] - 1, f["end"] - 1):
            inside[i] = True
    out["the rest"] = {l.strip() for i, l in enumerate(lines) if i >= first and not inside[i] and l.strip()}
    return out


def mixtures(otv, registry=False):
    """Of the combinations of features that are not verified themselves, those with a part that is in none that is; and how many have no such part.
    As functions are verified one by one, against the contracts of others, a program made of verified parts is verified."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        ps = dict(zip([*pipeline.CONFIGS, *pipeline.MIXED], ex.map(lambda c: parts(c, otv, registry), [*pipeline.CONFIGS, *pipeline.MIXED])))
    known = {}

    def learn(p):
        for k, v in p.items():
            known[k] = known.get(k, set()) | v
    for c in pipeline.CONFIGS:
        learn(ps[c])
    new, composed = [], 0
    for c in pipeline.MIXED:
        bad = sorted(k for k, v in ps[c].items() if not v <= known.get(k, set()))
        if bad:
            new.append((c, bad))
            learn(ps[c])
        else:
            composed += 1
    return new, composed


def by_module(r, path, funs, lines, raw, t0):
    """The verifier itself may stop when the solver gives up: module by module then."""
    from concurrent.futures import ThreadPoolExecutor
    r.ok = True
    mods = sorted({f["id"].split("::<")[0].rsplit("::", 1 if "<" in f["id"] else 2)[0] for f in funs if "::" in f["id"]})
    text = "\n".join(lines)
    mods = [m for m in mods if re.search(r"pub mod " + m.split("::")[-1] + r"\b", text)]

    def one(m):
        return m, call(path, ["--verify-only-module", m], timeout=240, threads=1)
    with ThreadPoolExecutor(8) as ex:
        for m, (out, errors, raw2, cmd, s) in ex.map(one, mods):
            own = [f for f in funs if f["id"].startswith(m + "::")]
            if out is None or "verified" not in out.get("verification-results", {}):
                for f in own:
                    if short(f["id"]).count("::") <= m.count("::") + 2:
                        r.undecided[f["id"]] = "the verifier stopped: " + raw2[-200:]
                continue
            r.verified += out["verification-results"].get("verified", 0)
            r.errors += out["verification-results"].get("errors", 0)
            collect(r, errors, funs, lines)
            account(r, out, "/nonexistent")
    r.note = "verified module by module, as the verifier stopped on the whole"
    r.seconds = time.time() - t0
    return r


def vacuous(config, otv, registry=False):
    """Functions in which a contradiction can be derived: each is given an assertion of falsehood, which has to fail."""
    expanded, err = pipeline.expand(config)
    path, m = pipeline.generate(config, otv, expanded, {}, True, "-probe", registry)
    out, errors, raw, cmd, s = call(path, ["--rlimit", "60"] if registry else [])
    lines = open(path).read().split("\n")
    failed = set()
    for d in errors:
        for x in d.get("spans", []):
            f = locate(m["functions"], x["line_start"])
            if f and "assert(false)" in lines[x["line_start"] - 1]:
                failed.add(f["id"])
    if not failed:
        raise RuntimeError("the verifier said nothing: " + raw[-300:])
    probed = [f for f in m["functions"] if f["status"] == "verified" and any("assert(false)" in l for l in lines[f["start"] - 1:f["end"]])]
    return dict(probed=len(probed), contradictory=sorted(f["id"] for f in probed if f["id"] not in failed))


if __name__ == "__main__":
    import sys
    otv = pipeline.build_otv()
    if "placement" in sys.argv:
        for c in [a for a in sys.argv[1:] if a in pipeline.CONFIGS] or ["default"]:
            r = placement(c, otv)
            print(c, r.ok, r.verified, r.errors, "s", round(r.seconds), "lemmas", len(r.lemmas), sum(r.lemmas.values()), r.note)
        sys.exit()
    for c in [a for a in sys.argv[1:] if a in pipeline.CONFIGS] or ["default"]:
        r = verify(c, otv, registry="registries" in sys.argv)
        if "once" not in sys.argv:
            retry(r)
        print(c, r.ok, r.verified, r.errors, "s", round(r.seconds), "solver ms", r.solver_ms, "obligations", sum(r.obligations.values()), len(r.obligations), "of", len(r.functions), "lemmas", len(r.lemmas), sum(r.lemmas.values()), r.note)
        for x in r.failed:
            print("FAILED", x["function"], x["kind"], "genuine" if x["genuine"] else "", x["message"], "|", x["obligation"][:150], "|", x["source"][:120])
        for k, v in r.undecided.items():
            print("UNDECIDED", k, v[:200])
        print([f for f in r.functions if f not in r.obligations][:10])
        print("dependencies", {k: v.get("obligations", 0) for k, v in r.dependencies.items()}, "assumed", r.assumed)
