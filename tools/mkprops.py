#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
D = "src/dynamic_trajectory.cpp"
DH = "include/dynamic_trajectory_generator/dynamic_trajectory.hpp"
TS = "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp"
DW = "src/dynamic_waypoint.cpp"
DWH = "include/dynamic_trajectory_generator/dynamic_waypoint.hpp"
TM = "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp"
M = "subpackages/mav_trajectory_generation/"
I = M + "include/mav_trajectory_generation/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook is not None: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(__file__), "props_body.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
