#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONC = ("TLA+ specification model checked exhaustively with TLC within small constants; traces of the real code, run under a controlled "
        "scheduler, validated by TLC against the same specification")
TR = ("TLA+ specification; behaviours of the specification and generated cases run on the real code, every recorded trace validated by TLC "
      "against the specification")
CLAIMED = {}
def claim(id, tech, note):
    CLAIMED[id] = (tech, note)
A = ("Model: exhaustive for 2 producers, capacity 2 (thorough: 4), up to 5 records, every interleaving, safety and liveness. Code: every "
     "distinct execution among thousands of random and preemption-bounded systematic schedules of generated programs is validated. Trusts: "
     "sequentially consistent interleaving at pthread/std::atomic operations, libcds internals not explored.")
for i in ("P05", "P06", "P07", "P08"):
    claim(i, CONC, A)
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash bin/setup", checks=[], not_applicable=[])
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        m["checks"].append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason="check still being built"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
