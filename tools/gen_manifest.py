"""Writes MANIFEST.json from the rules that exist (rules/cNN.py) and the reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C90": "bounds rounding errors of two evaluation orders over all inputs; this family has no floating point error semantics for numpy/numba/FFT code (C04 decides the exact-arithmetic part)",
 "C91": "statistical property of estimators over random signals (expectation and variance); not visible in the shape of the code (C06-C08 decide the algebraic part)",
 "C92": "timing",
 "C93": "distribution of simulated random walks; a statement about random numbers, not about code structure (C30 decides the structural part)",
 "C94": "schedule dependence lies inside numba's compiled parallel runtime; the kernels' disjoint writes are decided by C03/C10, the runtime is not in this repository's source",
}
TECH = {
 "default": "value numbering: gated normal forms compared with reference definitions",
}
NOTE = "Static: source of /repo is parsed on every run, analysed roots are reduced to canonical gated normal forms (symbolic arrays, loops closed or kept as recurrences) and compared by term identity with the reference definition. Trusted: the normaliser, the numpy model, the reference definitions in /verif/spec; arithmetic is exact. %s"
import sys
sys.path.insert(0, V)
try:
    from tools.notes import TECHNIQUE, NOTES
except ImportError:
    TECHNIQUE, NOTES = {}, {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(V, "rules", i.lower() + ".py")):
        na.append({"property": i, "reason": "no check yet: static rule for this property is still being built"}); continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough", "technique": TECHNIQUE.get(i, TECH["default"]), "level": "other", "level_note": NOTES.get(i, NOTE % "")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q cddmlint rules spec >/dev/null 2>&1 || true", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's source with /verif/cddmlint (standard library only, Python 3.12). No hooks in /repo. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
