#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (claimed = has rules)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import rules
from rules.base import OBS
rules.load()
AST = "effect / alias / error-path analysis over the resolved syntax tree (function summaries to a fixpoint)"
VN = "abstract interpretation over a value-number domain: source terms compared with the documented specification's terms"
TECH = {"C01": AST, "C02": AST, "C27": AST, "C28": AST}
NA = {
    "C30": "whether the lag found is the true period of a periodic signal is a numerical fact about runtime data; no static argument in reach bounds it",
    "C31": "floating-point range and rounding error over all amplitudes and dtypes quantify over runtime magnitudes; the value-number domain works over exact reals",
}
NOTE_AST = "Every function, handler, import and store of the package is inspected on each run; sound for the syntactic forms listed in DESIGN.md, silent on values hidden behind getattr/exec."
NOTE_VN = ("An obligation is discharged when the term computed from the source and the term of the specification have the same normal form for all values of the numeric options "
           "(exact reals, modelled NumPy/SciPy primitives); obligations whose normal forms differ are refuted only when interpreting both terms separates them, and otherwise counted as undecided in the evidence.")
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
SKIP = set(sys.argv[1:])
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "All checks are static: they parse /repo/spafe on every run and never import or execute it."}
for p in props:
    if p in OBS and p not in SKIP:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, VN), "level": "other",
                            "level_note": NOTE_AST if p in TECH else NOTE_VN})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "rules not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
