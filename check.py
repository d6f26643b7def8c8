#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough], or replays a violation: check.py replay FILE."""
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import pipeline
import verify
import harness
import formats

EVIDENCE = os.environ.get("OPENTYPE_EVIDENCE", os.path.join(ROOT, "evidence"))
CROSS = {"C01": "panic", "C02": "fault", "C03": "place"}
# What the harness runs next to the proofs: (mode, aspect, share of the time).
PLAN = {
    "C01": [("read", "panic", 4), ("fonts", "", 1), ("items", "", 1)],
    "C02": [("read", "fault", 4), ("fonts", "", 2)],
    "C03": [("read", "shift", 4)],
    "C04": [("fonts", "", 3)], "C05": [("fonts", "", 3)], "C06": [("fonts", "", 3)],
    "C09": [("items", "", 3)], "C10": [("items", "", 3)],
    "C21": [("read", "decode", 2), ("items", "", 2)], "C22": [("read", "decode", 2), ("items", "", 1)],
}
FONTS = ("C01", "C02", "C04", "C05", "C06")


def spec_names(prop, b):
    """What the harness is to look at."""
    return {"C01": "all", "C02": "all", "C03": "all"}.get(prop, prop)


def harness_run(binary, config, mode, names, aspect, ms, seed, extra=()):
    b = os.path.join(pipeline.BUILD, "harness-" + config)
    cmd = [binary, mode, "--spec", os.path.join(b, "spec.json"), "--literals", os.path.join(b, "literals.json"), "--types", names,
           "--ms", str(int(ms)), "--seed", str(seed), "--fixtures", os.path.join(pipeline.REPO, "tests", "fixtures"), *extra]
    if aspect:
        cmd += ["--aspect", aspect]
    try:
        r = subprocess.run(["sh", "-c", 'ulimit -v 16000000; exec "$@"', "sh", "timeout", "-k", "5", str(int(ms / 1000 * 3 + 120))] + cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out = json.loads(r.stdout)
    except ValueError:
        return dict(failed=True, note=f"the harness stopped with {r.returncode}: {r.stderr[-500:]}", cmd=" ".join(cmd), code=r.returncode)
    out["cmd"] = " ".join(cmd)
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.start = time.time()
        self.proofs, self.binaries, self.notes, self.reports = {}, {}, [], []
        self.placement = {}
        self.composed = 0           # combinations of features that consist of verified parts
        self.violations = 0

    # ------------------------------------------------------------------ work
    def prepare(self):
        """The proofs and the harnesses of both configurations."""
        os.makedirs(pipeline.BUILD, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        otv = pipeline.build_otv()

        def proof(c):
            try:
                self.proofs[c] = verify.verify(c, otv, registry=self.prop == "C10")
            except Exception as e:   # whatever goes wrong here is no violation
                r = verify.Result(c)
                r.note = f"the verification could not be carried out: {e!r}"
                self.proofs[c] = r

        def placement(c):
            try:
                self.placement[c] = verify.placement(c, otv)
            except Exception as e:
                self.placement[c] = verify.Result(c)
                self.placement[c].note = f"the lemmas about placement could not be looked at: {e!r}"

        def build():
            for c in pipeline.CONFIGS:
                try:
                    b, more = harness.build(c)
                except Exception as e:
                    b, more = None, repr(e)
                if b:
                    self.binaries[c] = b
                    if more:
                        self.notes.append(f"{c}: the harness leaves out {more}")
                else:
                    self.notes.append(f"{c}: the harness cannot be built: {str(more)[-800:]}")

        def mixed():
            """The other combinations of features: those that are not made of verified parts are verified themselves."""
            try:
                new, self.composed = verify.mixtures(otv, registry=self.prop == "C10")
            except Exception as e:
                self.notes.append(f"the other combinations of features could not be looked at: {e!r}")
                return
            for c, bad in new[:3]:
                self.notes.append(f"{c} ({', '.join(pipeline.features(c))}) has parts that are in no other configuration: {bad[:6]}")
                proof(c)
                try:
                    b, more = harness.build(c)
                except Exception as e:
                    b, more = None, repr(e)
                if b:
                    self.binaries[c] = b
                else:
                    self.notes.append(f"{c}: the harness cannot be built: {str(more)[-800:]}")
            for c, bad in new[3:]:
                self.notes.append(f"{c} ({', '.join(pipeline.features(c))}) is not looked at, though it has parts of its own: {bad[:6]}")
        ts = [threading.Thread(target=proof, args=(c,)) for c in pipeline.CONFIGS] + [threading.Thread(target=build), threading.Thread(target=mixed)]
        if self.prop == "C03":
            ts += [threading.Thread(target=placement, args=(c,)) for c in pipeline.CONFIGS]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def relevant(self, fid):
        return self.prop in CROSS or self.prop in verify.properties(fid)

    def mine(self, x):
        """Whether a failed obligation is one of this property."""
        if self.prop == "C01":
            return x["kind"] == "panic"
        if self.prop == "C02":
            return x["kind"] == "fault"
        if self.prop == "C03":
            return x["kind"] == "place"
        if self.prop == "C10" and x["kind"] == "panic":
            return True
        if x["kind"] == "fault":
            return False                # the concern of C02
        if x["kind"] == "panic":
            return False                # the concern of C01
        return self.prop in verify.properties(x["function"], x["kind"])

    def failures(self):
        """(genuine failed obligations, functions left undecided) by configuration."""
        out = {}
        for c, r in self.proofs.items():
            g = [x for x in r.failed if x.get("genuine") and self.mine(x)]
            u = {k: v for k, v in r.undecided.items() if self.relevant(k)}
            for x in r.failed:
                if not x.get("genuine") and self.relevant(x["function"]):
                    u.setdefault(x["function"], x["message"])
                # A function that fails otherwise is not proved for any other purpose either.
                if x.get("genuine") and not self.mine(x) and self.relevant(x["function"]) and x["kind"] not in ("fault", "panic", "default"):
                    u.setdefault(x["function"], "another obligation of it fails: " + x["kind"])
            out[c] = (g, u)
        return out

    def explore(self, seconds, names=None, seed=0):
        """Runs the harness of every configuration.  Returns the first failing report."""
        plan = PLAN.get(self.prop, [("read", "decode", 3)])
        total = sum(p[2] for p in plan)
        for c, b in self.binaries.items():
            for mode, aspect, share in plan:
                if names and mode != "read":
                    continue
                extra = []
                if (self.thorough or seed and self.prop == "C10") and not names and mode in ("items", "fonts"):
                    extra = ["--exhaustive", "1"]
                ns = names or ("all" if mode == "read" and self.prop in CROSS else self.prop)
                if mode == "items" and self.prop == "C01":
                    ns = "C09,C21"
                r = harness_run(b, c, mode, ns, aspect, 1000 * seconds * share / total, self.seed + 101 * seed, extra)
                r["config"], r["mode"], r["aspect"], r["types"] = c, mode, aspect, ns
                if mode == "items" and self.prop == "C01" and r.get("failure") and "panic" not in r["failure"].get("what", ""):
                    r["failure"] = None
                self.reports.append(r)
                if r.get("failed"):
                    if r["code"] in (134, 139, -6, -11, 101) and self.prop == "C01":
                        # The stack or the process is gone, which no input may bring about.
                        r["failure"] = dict(mode=mode, what="the process ends", expected="a value or an error", got=r["note"], cmd=r["cmd"])
                        return r
                    self.notes.append(f"{c}: {r['note']}")
                    continue
                if r.get("failure"):
                    return r
        return None

    def focus(self, functions):
        """The readers that failing functions belong to."""
        g = []
        for f in functions:
            base = f.split("::<")[0]
            if base in verify.OWN:
                g.append(base)
            elif "::".join(f.split("::")[:-1]) in verify.OWN:
                g.append("::".join(f.split("::")[:-1]))
            else:
                m = "::".join(f.split("::")[:-1])
                g += [t for t in verify.OWN if t.startswith(m + "::") and "::" not in t[len(m) + 2:]]
        names = [n for n, o, s in harness.roots(None) if n.split("<")[0] in g]
        return ",".join(sorted(set(names)))

    # --------------------------------------------------------------- outcome
    def violation(self, report, failed, config):
        self.violations += 1
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        j = dict(property=self.prop, config=config, seed=self.seed)
        if failed:
            j["failed_obligations"] = failed
        if report:
            j["case"] = report["failure"]
            j["harness"] = report["cmd"]
            j["replay_cmd"] = f"python3 check.py replay {path}"
        json.dump(j, open(path, "w"), indent=1)
        for x in failed[:5]:
            print(f"failed obligation in {x['function']} ({x['kind']}): {x['message']}: {x['obligation'][:200]} at {x['source'][:160]}")
        if report:
            f = report["failure"]
            print(f"failing input ({config}, {f.get('type', f.get('mode'))}): {f['what']}: expected {str(f['expected'])[:300]}, got {str(f['got'])[:300]}")
        print(f"VIOLATION property={self.prop} replay={path}" + ("" if report else " no-failing-input-found"))

    def run(self):
        self.prepare()
        base = {"quick": 14, "thorough": 240}[self.tier]
        if self.prop in CROSS:
            base *= 1.5
        hit = None
        for second in (False, True):
            fs = self.failures()
            genuine = [(c, x) for c, (g, u) in fs.items() for x in g]
            undecided = {k for g, u in fs.values() for k in u}
            broken = [c for c, r in list(self.proofs.items()) + list(self.placement.items()) if not r.ok]
            names = self.focus({x["function"] for _, x in genuine} | undecided)
            if names and not second:
                # Where a proof failed, look there first.
                hit = self.explore(12, names=names)
            if not hit and not second:
                hit = self.explore(base / 2)
            if hit or second or not (genuine or undecided):
                break
            # An input tells more than a proof that fails; without one the proof is given a second chance.
            ts = [threading.Thread(target=verify.retry, args=(r,)) for r in self.proofs.values()]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        if not hit and (genuine or undecided or broken):
            # The registries are small enough to look at everything, which takes as long as it takes.
            hit = self.explore(40 if not self.thorough else 200, names=names or None, seed=1) or self.explore(30, seed=2)
        if hit:
            self.violation(hit, [x for c, x in genuine if c == hit["config"]], hit["config"])
        elif genuine:
            c = genuine[0][0]
            self.violation(None, [x for d, x in genuine if d == c], c)
        elif self.thorough:
            self.more()
        self.evidence(fs)
        return 1 if self.violations else 0

    def more(self):
        """What the thorough check adds: other seeds of the solver, and a look at vacuity."""
        otv = os.path.join(pipeline.BUILD, "otv", "debug", "otv")
        self.vacuity = {}
        for c in pipeline.CONFIGS:
            again = verify.verify(c, otv, seed=self.seed + 12345, registry=self.prop == "C10")
            if self.prop == "C03":
                pl = verify.placement(c, otv, seed=self.seed + 12345)
                self.notes.append(f"{c}: lemmas about placement with another seed of the solver: {pl.verified} verified, {pl.errors} failed")
            self.notes.append(f"{c}: with another seed of the solver {again.verified} verified, {again.errors} failed")
            try:
                bad = verify.vacuous(c, otv, registry=self.prop == "C10")
                self.vacuity[c] = bad
                self.notes.append(f"{c}: functions probed for contradictory assumptions: {bad['probed']}, contradictory: {bad['contradictory'] or 'none'}")
            except Exception as e:
                self.notes.append(f"{c}: the check for vacuity could not be carried out: {e!r}")

    def evidence(self, fs):
        cov = dict(obligations=0, discharged=0)
        by = []
        solver = 0
        for c, r in self.proofs.items():
            ids = [f for f in r.functions if self.relevant(f)]
            bad = {x["function"] for x in r.failed} | set(r.undecided)
            n = sum(r.obligations.get(f, 0) for f in ids)
            if self.prop == "C04" or self.prop in CROSS:
                n += r.obligations.get("table::*::<Table>::tag", 0)
            d = n - sum(r.obligations.get(f, 0) for f in ids if f in bad) if r.ok else 0
            left = [f for f in ids if f in bad] if r.ok else ids
            ls = {k: v for k, v in r.lemmas.items() if self.prop in verify.LEMMAS.get(k.split("::")[-1], []) or self.prop in CROSS or "chain_" in k or k.startswith("typeface::") or k.startswith("specs_")}
            deps = {k: v.get("obligations", 0) for k, v in r.dependencies.items()}
            n += sum(ls.values()) + sum(deps.values()) + len(left)
            d += sum(ls.values()) + sum(deps.values()) if r.ok else 0
            pl = self.placement.get(c)
            if pl:
                k = max(sum(pl.lemmas.values()), 1)
                n, d, solver = n + k, d + (k if pl.ok else 0), solver + sum(pl.times.values()) / 1e6
            cov["obligations"] += n
            cov["discharged"] += d
            solver += sum(r.times.get(f, 0) for f in ids) / 1e6
            by.append(dict(config=c, features=pipeline.features(c), functions_under_contract=len(ids), functions_discharged=len(ids) - len(left),
                           undischarged={f: r.undecided.get(f, "an obligation fails") for f in left}, obligations=n, discharged=d,
                           lemmas=len(ls), dependencies=dict(functions=deps, obligations=sum(deps.values()), assumed=r.assumed), solver_s=round(sum(r.times.get(f, 0) for f in ids) / 1e6, 2), verifier_s=round(r.seconds, 1),
                           **(dict(placement=dict(program="the lemmas of spec/placement.py", verified=pl.verified, errors=pl.errors, obligations=sum(pl.lemmas.values()), verifier_s=round(pl.seconds, 1), note=pl.note)) if pl else {}),
                           whole_program=dict(verified=r.verified, errors=r.errors), note=r.note,
                           functions=sorted(ids) if len(ids) <= 60 else f"{len(ids)} functions: all of the crate"))
        cov["checker_cmd"] = next((r.cmd for r in self.proofs.values() if r.cmd), "verus")
        cov["back_end"] = "Verus 0.2026.09.13 with Z3"
        cov["solver_s"] = round(solver, 2)
        cov["configurations"] = by
        cov["combinations_of_features"] = dict(verified=len(by), made_of_verified_parts=self.composed)
        cov["trusted_base"] = trusted(self.proofs)
        # The differential runs next to the proofs.
        ev = [r for r in self.reports if not r.get("failed")]
        cov["evaluations"] = sum(r["evaluations"] for r in ev)
        cov["distinct_nontrivial"] = sum(r["distinct"] for r in ev)
        cov["rule"] = ("bounded stand-in, never counted as proved: the crate itself is run on inputs made from the format grammar (and mutated, cut, and with fixtures) and compared with an "
                       "oracle that interprets the same grammar; distinct are the different inputs (type, bytes, position, parameters)")
        cov["samples"] = [s for r in ev for s in r["samples"]][:4] or ["none"]
        cov["accepted"] = sum(r["accepted"] for r in ev)
        cov["rejected"] = sum(r["rejected"] for r in ev)
        visited = {}
        for r in ev:
            for k, v in r["visited"].items():
                visited[k] = visited.get(k, 0) + v
        cov["structures_visited"] = len(visited)
        cov["runs"] = [dict(config=r["config"], mode=r["mode"], aspect=r["aspect"], types=r["types"], evaluations=r["evaluations"], exhaustive=r["exhaustive"], notes=r["notes"]) for r in ev]
        if self.prop == "C22" and ev:
            cov["exhaustive"] = all(r["exhaustive"] for r in ev if r["mode"] == "items")
        cov["notes"] = self.notes
        level = next(c["level"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"] if c["property"] == self.prop) if os.path.exists(os.path.join(ROOT, "MANIFEST.json")) else "proof"
        j = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.start, 1), violations=self.violations)
        json.dump(j, open(os.path.join(EVIDENCE, self.prop + ".json"), "w"), indent=1)


def trusted(proofs):
    """What the proofs assume, as it stands in the programs that the verifier was given."""
    out = ["Verus, its standard library vstd, Z3, and rustc's macro expansion",
           "tools/otv: the extraction of the functions from the expanded crate (what it rewrites and drops is described in DESIGN.md)",
           "spec/formats.py: the format grammar, from which contracts and oracle are generated",
           "derived implementations (Clone, Copy, Default, PartialEq) do what derive gives"]
    for r in proofs.values():
        if not r.program or not os.path.exists(r.program):
            continue
        lines = open(r.program).read().split("\n")
        for i, l in enumerate(lines):
            near = l + (lines[i + 1] if i + 1 < len(lines) else "")
            if "external_body" in l:
                if "unsupported" in l or verify.locate(r.functions.values(), i + 1):
                    continue        # counted as not discharged
                m = re.search(r"external_body\].*?(fn|struct) (\w+)", near)
                if m:
                    before = lines[i - 1].strip() if i and lines[i - 1].strip().startswith("///") else ""
                    out.append(f"assumed {'type' if m.group(1) == 'struct' else 'contract of'} {m.group(2)}" + (f" ({before[4:]})" if before else ""))
            m = re.search(r"assume_specification(?:<[^\[]*>)? ?\[ ?([^\]]*)\]", l)
            if m:
                out.append(f"assumed contract of {m.group(1).strip()}")
            if re.search(r"\b(assume|admit)\(", l):
                out.append("assumption: " + l.strip()[:120])
            if "global size_of" in l:
                out.append("usize has 64 bits")
        out += [f"assumed contract of {x} (its source is not proved)" for x in r.assumed]
    return list(dict.fromkeys(out))


ASSUMPTIONS = [
    "tapes hold the same bytes throughout, are at most 2^62 bytes long, and their positions are those of std::io::Seek",
    "allocation succeeds (exhausted memory is not considered)",
    "the arithmetic of the crate is that of machine integers, checked for overflow; that of specifications is mathematical",
    "Debug, Display and write implementations are not under contract",
]


def replay(path):
    j = json.load(open(path))
    if not j.get("case"):
        print(json.dumps(j.get("failed_obligations", []), indent=1)[:6000])
        print("no failing input was found; run the check again to see whether the obligation still fails")
        return 0
    b, more = harness.build(j["config"])
    if not b:
        print("the harness cannot be built", more[-1000:])
        return 2
    r = harness_run(b, j["config"], "replay", "all", "", 1000, 1, ["--file", path])
    print(json.dumps(r.get("failure"), indent=1))
    return 1 if r.get("failure") else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(sys.argv[1], tier).run())
