#!/usr/bin/env python3
"""Writes props/info.json and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: obligations generated from the real source by pyvc, discharged by z3/cvc5"
TB = T + "; parts outside its reach by bounded evaluation of the same contracts on the real code"
BASE = ("Proof: contracts on the functions listed in the evidence, obligations regenerated from /repo on every run by a symbolic "
        "executor for Python/numpy and discharged by z3/cvc5. Trusted: the executor and its numpy contracts; floats as reals. ")

# property: (level, conc seconds, proof seconds, technique, note, bounded, assumptions)
INFO = {}


def add(p, level, note, bounded=(), assumptions=(), conc=8, proof=120, tech=None):
    INFO[p] = dict(level=level, conc_budget=conc, proof_budget=proof, note=note, bounded=list(bounded), assumptions=list(assumptions),
                   technique=tech or (T if not bounded else TB))


NOCOMP = "the same contracts are also evaluated on the real code for seeded inputs (replay layer)"
add("C01", "proof", BASE + "All grid sizes, sub-sample counts, guard widths and map values symbolic.")
add("C02", "proof", BASE + "All grid sizes and map values symbolic.")
add("C03", "proof", BASE + "All sizes and map values symbolic; rows proved against the leg/number/stencil contracts.")
add("C04", "proof", BASE + "All map values and sizes symbolic (nz >= 1).")
add("C05", "proof", BASE + "Row lengths and row counts are enumerated up to a bound; columns and weights symbolic.",
    bounded=["number of rows <= 3 and entries per row <= 3 in the CSR export obligations (values symbolic)"])
add("C06", "proof", BASE + "All sizes and map values symbolic; the operator calculation enters by its contract (C01-C05).")

exec(open(os.path.join(HERE, "tools", "more_info.py")).read())

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
json.dump(INFO, open(os.path.join(HERE, "props", "info.json"), "w"), indent=1, sort_keys=True)
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="quick: check.py PROP; thorough: 20x the evaluation budget and 6x the proof budget. tools/mkmanifest.py writes this file.")
for p in props:
    if p in INFO:
        i = INFO[p]
        man["checks"].append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
                                  evidence_file=f"evidence/{p}.json", technique=i["technique"], level=i["level"], level_note=i["note"]))
    else:
        man["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check built yet") if "NA" in globals() else "no check built yet"))
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
