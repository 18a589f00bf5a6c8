#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json. Claims the properties for which mc/h/ has a driver."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for d in ("/mc/h/", "/mc/hc/"):
    for f in os.listdir(V + d):
        for m in re.finditer(r'ID:\s+"(C\d\d)"', open(V + d + f).read()):
            have.add(m.group(1))
TECH = {
    "default": "exhaustive bounded exploration of the real code (stateless DFS over choice vectors) against a reference model",
    "hist": "exhaustive exploration of all operation histories to a depth bound on a virtual clock, real code vs reference state machine",
    "C09": "exhaustive enumeration of crash points, torn writes, I/O faults and preemption-bounded file-operation interleavings of the real code",
    "C12": "exhaustive exploration of event timings on a virtual clock, real code vs event-time model",
    "C28": "preemption-bounded exhaustive schedule exploration of the real code under a controlled scheduler, every schedule also checked by the race detector",
}
for k in ("C06", "C07", "C08", "C10", "C29", "C31", "C32"):
    TECH[k] = TECH["hist"]
NOTE = ("Every execution within the bounds written to the evidence file is run on /repo's current code and compared with an "
        "independent reference model. Says nothing beyond those bounds. Trusts: the Go toolchain, the explorer in mc/h/core.go, "
        "the reference model in the driver, and the build overlay that owns map order, clock and file operations.")
out = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "none: no hook is committed in /repo; every seam is added by a build overlay (go build -overlay)",
                 "enable": "mc/run.py generates the overlay and builds with it", "source_commits": []},
       "checks": [], "not_applicable": []}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in have:
        out["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                              "technique": TECH.get(p, TECH["default"]), "level": "model_checking", "level_note": NOTE})
    else:
        out["not_applicable"].append({"property": p, "reason": "no check yet (under construction)"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed;", len(out["not_applicable"]), "not")
