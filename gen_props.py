#!/usr/bin/env python3
"""Writes properties.jsonl and checks.json from the table below (then run gen_manifest.py)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, text, why, files, mech, state, at, technique, note):
    P.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=at, hook_needed=None)),
        technique=technique, note=note))

H = ["histories", "inputs"]
BK = "x/bank/internal/keeper/keeper.go"; DK = "x/delegating/keeper/keeper.go"; NK = "x/noding/keeper/keeper.go"
RK = "x/referral/keeper/keeper.go"; PK = "x/profile/keeper/keeper.go"; SK = "x/schedule/keeper/keeper.go"; VK = "x/voting/keeper/keeper.go"
NOTE = "Held on the executed steps of the generated chains only; reach comes from workload diversity (see the counters in the evidence)."
AFTER = ["after every DeliverTx, BeginBlock and EndBlock"]

exec(open(os.path.join(here, "props_table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"], separators=(",", ":")) + "\n")
cfg = json.load(open(os.path.join(here, "checks.json")))
cfg["checks"] = {p["line"]["id"]: dict(technique=p["technique"], note=p["note"]) for p in P}
json.dump(cfg, open(os.path.join(here, "checks.json"), "w"), indent=1)
