#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties and the checks present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "P01": "TLC: every history of the small operation set on seven shapes, invariants of the specification (area, box, minimization, turn algebra); the same histories and long simulated and random ones replayed on the library (3 numeric types, 5 scales) and every recorded event judged by TLC against Polyline.tla. Assumes integer-grid coordinates times a power of two; values compared in fixed point 1e-4.",
}
DEF = "TLC model checks the specification on the enumerated bounded instances, and judges every event recorded from the real library (replaying the emitted and further random histories, several numeric types and scales) against it. Assumes integer-grid coordinates times a power of two, fixed-point comparison; trusts the interpreter in /verif/harness, TLC and the compiler."
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 bin/check %s quick" % p, thorough_cmd="python3 bin/check %s thorough" % p,
            technique="TLA+ specification model-checked with TLC, histories replayed on the library, recorded traces validated by TLC against the specification",
            level="model_checking", level_note=NOTE.get(p, DEF)))
    else:
        na.append(dict(property=p, reason="not claimed yet: its specification module and conformance check are still being built"))
json.dump(dict(version=1, setup_cmd="python3 bin/setup", notes="No hooks: the checks observe the public interface only.",
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
