#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json. NOTES: per claimed property, (technique, level note)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = "Exhaustive within the stated bounds on the real implementation; assumes the small-scope hypothesis, easy proof-of-work parameters and the reference rules in harness/src/chain.rs."
CLAIMED = {
 "C01": ("stateless model checking of the real block tree: all header trees, arrival orders and batchings, against a reference model", TREE),
 "C02": ("stateless model checking of the real block tree: all rule-boundary header variants on trees and forks, against reference consensus rules", TREE),
 "C03": ("stateless model checking of the real block tree: reports of every import compared with the before/after chains", TREE),
 "C04": ("stateless model checking of the real block tree: all checkpoint placements, arrival orders and batchings", TREE),
 "C05": ("stateless model checking of the real block tree: every query in every reached state, against a reference model", TREE),
 "C06": ("stateless model checking of the real block tree on the real file store: restarts between any two imports of every tree, order and batching, against a reference model", TREE),
}
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="Checks run the real code under an exhaustive choice-program explorer (harness/src/engine.rs); see DESIGN.md. One hook in /repo makes the address cache public; everything else goes through public APIs.",
  hooks=dict(guard="cfg(nkmc)", enable="RUSTFLAGS=--cfg nkmc (tools/env.sh)", source_commits=["5e8b6cd"]))
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
