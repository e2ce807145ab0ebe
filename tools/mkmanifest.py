#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
    "mc": "Exhaustive over the scenarios of the model (every cut into buffers, every announcement of the end, disturbances), each explored transition replayed on the code; "
          "plus seeded random sessions recorded from the code and checked by TLC against the specification. Bounded: short streams and small compositions; trusts TLC and the harness's comparison.",
    "rec": "Seeded random sessions recorded from the code, every observation checked by TLC against the specification. Bounded by the sampled sessions; trusts TLC and the recording harness.",
}
import sys
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan
checks = []
for p in props:
    i = p["id"]
    jobs = plan.PLAN[i]
    mods = sorted({j["module"] for j in jobs if j["job"] == "mc"})
    kind = "mc" if mods else "rec"
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique="TLA+ specification checked with TLC (%s); model behaviours replayed on the code and recorded sessions checked against the specification" % ", ".join(mods + ["Trace"])
                       if mods else "TLA+ specification; recorded sessions of the code checked against it with TLC (Trace)",
                       level="model_checking", level_note=NOTE[kind]))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=[],
         notes="All checks build the harness in /verif/harness against /repo's working tree. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
