#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed properties are those that have a harness."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/h*/*.go"):
    have |= set(re.findall(r"^func (P\d\d)_", open(f).read(), re.M))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTE = ("Bounded symbolic execution of the real functions (go/ssa of the current tree, dependencies and standard library included); every path's assertions are decided by an SMT solver for all "
        "values of the symbolic inputs; counterexamples are replayed on the natively compiled code and only reported when they fail there. Bounds: the symbolic holes documented with each harness (evidence lists them). "
        "Trusted: the translation go/ssa -> terms (checked by replaying sampled paths natively), the modelled library functions listed in DESIGN.md, z3.")
EXTRA = {}
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": "symbolic execution of the Go SSA of the real code with an SMT solver (z3), native replay of counterexamples",
                       "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: harnesses use the public API through a Go build overlay. Repairs of defects are the 'fix:' commits in /repo, listed in KNOWN_FINDINGS.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
