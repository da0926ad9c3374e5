#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs that exist (python3 tools_manifest.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Every obligation (side obligations of the executed functions and the contract goals) is generated from the functions parsed out of /repo's current "
        "sources and discharged for all inputs and sizes. Real arithmetic (no rounding, no NaN/overflow); trusted: parser front end, symbolic interpreter, "
        "contracts of std/ndarray operations, term normaliser, z3. ")
EXTRA = {}
extra = os.path.join(HERE, "manifest_notes.json")
if os.path.exists(extra):
    EXTRA = json.load(open(extra))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "specs", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification of the parsed source (symbolic execution to verification conditions, term normaliser + SMT); failed obligations replayed on the built library",
                           level="proof", level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason=EXTRA.get("na:" + i, "contracts for this property are not finished yet; no check is registered")))
json.dump(dict(version=1, setup_cmd="cargo build --release --offline --manifest-path frontend/Cargo.toml && cargo build --offline --manifest-path replay/Cargo.toml",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything the contracts mention is public or parsed from the sources."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
