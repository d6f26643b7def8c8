"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the extracted Rust functions with Verus (Z3); the harness replays failures on the crate"
COMMON = ("Every obligation of the functions that the property depends on is discharged by Verus from the current source, in both feature configurations, for all inputs. "
          "Trusted: Verus/Z3, rustc's macro expansion, the extractor tools/otv, the format grammar spec/formats.py, the contracts of the dependencies (evidence: trusted_base). ")
NOTES = {
    "C01": "Overflow, indexing and precondition obligations of every reader, lookup and accessor. Debug and write implementations and exhausted memory are not covered.",
    "C02": "Every contract relates an injected fault to the result. Short reads are covered by the contract of read_exact and by the harness (bounded).",
    "C03": "Contracts speak of positions relative to the start only; the harness compares placements (bounded).",
    "C04": "Contracts of Font::{exists,position,take,take_given} over all directories, and of the 16 Table::tag.",
    "C05": "The checksum clauses of Font::{position,take,take_given}; the sum itself is the assumed contract of truetype's Record::checksum.",
    "C06": "Contracts of File::read, Font::read and accept.",
    "C09": "Contracts of Scripts::get, script::Record::get, Features::get for all lists and tags.",
    "C10": "Contracts of from_tag, name, codes and From of the three registries over all tags and all values, against spec/registry.json; the splitting of the list of codes is the assumed contract of str::split and filter. The harness enumerates all 2^32 tags in the thorough check.",
    "C21": "Contracts of the readers and of ColorPalettes::iter, and the lemma that whatever was read may be iterated over.",
    "C22": "Contracts of every predicate over all words, and of the readers of the flag types; the harness enumerates all words of all types.",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique=TECH, level="proof",
                       level_note=COMMON + NOTES.get(p, "Contracts of the readers of the structures of this property: accepted exactly the well-formed inputs, and the value is the one that is stored.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
               notes="No hooks in /repo. Repaired defects: known-findings.txt. Design: DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
