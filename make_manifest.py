#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a scenario module is claimed."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NA = {}
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(H, 'props', p + '.py')) and p not in NA:
        checks.append({
            "property": p,
            "quick_cmd": "./check.sh %s quick" % p,
            "thorough_cmd": "./check.sh %s thorough" % p,
            "technique": "bounded symbolic execution of the real Python code, z3 decides every assertion; counterexamples replayed on the unmodified code",
            "level": "other",
            "level_note": "Holds for all symbolic values on every path within the stated structural bounds, in exact arithmetic; "
                          "trusts z3, the symbolic model of the numpy operations used and the Python interpreter. Floating-point rounding, "
                          "overflow and nan/inf are outside; paths that could not be decided are listed as undecided in the evidence."})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
