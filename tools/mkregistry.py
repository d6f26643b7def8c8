"""Writes spec/registry.json: the registered scripts, languages and features (run once,
on the pinned commit; the result is part of the specification)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for kind, f in (("Script", "script"), ("Language", "language"), ("Feature", "feature")):
    s = open(f"/repo/src/layout/{f}.rs").read()
    s = s[s.index("implement! {\n"):]
    rows = []
    for m in re.finditer(r'(#\[cfg\(feature = "([a-z-]+)"\)\]\s*)?b"([^"]*)" => "([^"]*)" => (\w+)(?: => "([^"]*)")?,', s):
        _, cfg, tag, name, variant, codes = m.groups()
        assert len(tag) == 4, tag
        r = dict(variant=variant, tag=tag, name=name, feature=cfg)
        if kind == "Language":
            r["codes"] = re.sub(r"\\\n\s*", "", codes)
        rows.append(r)
    out[kind] = rows
    print(kind, len(rows), len({r["tag"] for r in rows}), [r for r in rows if r["feature"]])
json.dump(out, open(os.path.join(ROOT, "spec", "registry.json"), "w"), indent=0)
