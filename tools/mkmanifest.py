#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from table import TABLE, NOT_APPLICABLE  # noqa: E402
E1 = "symbolic execution of the real sources over field terms, path conditions decided by z3 and an F_p solver"
E2 = "bounded model checking of the real sources (Kani/CBMC)"
E3 = "path-wise symbolic execution of the LLVM IR of the real sources, decided by z3 over bit-vectors"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    t = TABLE.get(p)
    if t is None:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check yet")))
        continue
    tech = [E1] if t.get("engine") else []
    first = t.get("either", [None])[0]
    tech += [E2] if t.get("kani") or first == "kani" else []
    tech += [E3] if t.get("ll") or first == "ll" else []
    tech += [t["technique"]] if t.get("technique") else []
    checks.append(dict(
        property=p, quick_cmd="python3 check.py %s --tier quick" % p,
        thorough_cmd="python3 check.py %s --tier thorough" % p,
        technique="; ".join(tech), level="other",
        level_note="Solver verdict for all values within the bounds listed in the evidence file; nothing outside them. "
                   "Trusts the environment models in shim/ (field, polynomials, FFT, transcript, Merkle tree, "
                   "cairo-vm types) and the solvers. " + t.get("note", "")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check rebuilds from /repo's working tree. No hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
