#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with registered instances is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import instances
NOTE = {
 "C01": "Contents: all for frames of 1-4 bytes, last three bytes for longer ones; every length with a fixed pattern.",
 "C02": "All frames of 3-8 bytes (12 thorough), all bursts over frames of 5 and 8 bytes; longer frames: last five bytes.",
 "C03": "Reads and single writes: all parameters. Multiple writes: all values up to 20 coils / 5 registers; larger quantities with the last values symbolic.",
 "C04": "Limits: all 65536 quantities. Histories up to 4 operations (6 thorough).",
 "C13": "Inductive step from every valid queue state, so histories of any length; depends on the queue structure's documented fields.",
}
checks = [{"property": p, "quick_cmd": "python3 vp.py check %s --tier quick" % p, "thorough_cmd": "python3 vp.py check %s --tier thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": "bounded symbolic execution of the C sources with CBMC, decided by SAT",
           "level": "model_checking",
           "level_note": "Exhaustive within the bounds listed per instance in the evidence (unwinding assertions on); nothing is claimed beyond them. " + NOTE.get(p, "") +
                         " Trusts CBMC and the stub driver/application in /verif/harness; callbacks and API calls are atomic."}
          for p in sorted(instances.PROPS)]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "no check registered yet (harness under construction)"} for p in props if p not in instances.PROPS]
m = {"version": 1, "setup_cmd": "python3 -m py_compile vp.py instances.py && cbmc --version", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks run from /verif against /repo/src; VP_REPO points them at another tree for development."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
