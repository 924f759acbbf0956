#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOT_APPLICABLE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, v in PLAN.items():
    fns = [f"{u}: {f}" for u, fs in v["units"].items() for f in fs]
    proof = bool(fns)
    note = ("Verus discharges every obligation of the contracts of " + ", ".join(sorted({f.split(': ')[1] for f in fns})) + ", extracted from /repo on every run, for all inputs and iterations. "
            "Assumed: the contracts of f64, ndarray and std in prelude/, exact laws of real numbers are not used; " + ("relies on " + "; ".join(v["relies"]) + "." if v["relies"] else "no other contract is assumed.")
            + " A bounded random search on the real code runs beside it and supplies failing inputs." + (" " + v["note"] if v.get("note") else "")) if proof else \
           "Bounded: a random search over small inputs on the real code against a direct definition stands in; nothing is proved. " + v.get("note", "")
    c = dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
             technique="contract-based deductive verification (Verus) of the code extracted from /repo" if proof else "bounded stand-in: random search on the real code against a direct definition",
             level="proof" if proof else "exploration", level_note=note.strip())
    if proof:
        c["theorems"] = [f"contracts/{f.split(': ')[0]}.vc {f.split(': ')[1]}" for f in fns]
    checks.append(c)
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="--cfg up4_verif", enable="RUSTFLAGS='--cfg up4_verif' cargo build (harness/ with a mirror of /repo's buildable part as path dependency)", source_commits=["0ae7524"]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()],
         notes="Every check extracts the functions of its property from /repo's working tree and verifies them; see DESIGN.md. Fixed defects: known-findings.txt.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
