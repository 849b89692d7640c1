#!/usr/bin/env python3
"""Write MANIFEST.json from the table of claimed checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOCK = ("Every execution is one of the real library sources compiled from /repo, driven through its C interface by a controlled stand-in for the solver. "
        "Exhaustive within the stated bounds on graph size, weights, literal patterns and histories; trusts the stand-in's reading of the propagator contract and the reference semantics (both in /verif/src).")
T_DFS = "stateless model checking of the implementation: exhaustive enumeration of decision/backtrack histories over bounded constraint graphs"
T = {
    "C01": (T_DFS, MOCK), "C02": (T_DFS, MOCK), "C03": (T_DFS, MOCK),
    "C04": ("stateless model checking: all decide/backjump operation sequences up to a depth, compared with a fresh instance", MOCK),
    "C05": (T_DFS, MOCK), "C06": (T_DFS, MOCK), "C07": (T_DFS, MOCK),
    "C10": ("stateless model checking under a controlled scheduler: all interleavings of two solver threads up to a preemption bound, plus race detection",
            "Two real threads of the implementation under a cooperative scheduler that switches at every solver call; all schedules up to the preemption bound are compared with solo runs. "
            "A second job runs the same scenarios freely under ThreadSanitizer to detect data races between scheduling points. Bounds: two threads, small graphs."),
    "C24": (T_DFS, MOCK), "C25": (T_DFS, MOCK),
}
import importlib.util
extra = os.path.join(ROOT, "tools", "claims.py")
if os.path.exists(extra):
    spec = importlib.util.spec_from_file_location("claims", extra)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    T.update(m.claims(MOCK, T_DFS))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = dict(
    version=1, setup_cmd="true",
    checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                 technique=T[p][0], level="model_checking", level_note=T[p][1], evidence_file="evidence/%s.json" % p) for p in ids if p in T],
    not_applicable=[dict(property=p, reason="no check registered yet") for p in ids if p not in T],
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
