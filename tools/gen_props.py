#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
S = "programs/hmmcl-sandbox/src/"
DEC = S + "decimal.rs"
POOL = S + "cl_pool/mod.rs"; PM = S + "cl_pool/cl_math.rs"; PC = S + "cl_pool/cl_components.rs"
FPOOL = S + "cl_pool_float/mod.rs"; FPM = S + "cl_pool_float/cl_math.rs"; FPC = S + "cl_pool_float/cl_components.rs"
DEP = S + "instructions/deposit.rs"; WD = S + "instructions/withdraw.rs"; IP = S + "instructions/initialize_pool.rs"
MB = S + "instructions/manage_bitmap.rs"; MF = S + "instructions/manage_fee.rs"; MP = S + "instructions/manage_position.rs"; MT = S + "instructions/manage_tick.rs"
BM = S + "state/tick_bitmap.rs"; ST = S + "state/"; LIB = S + "lib.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    P.append(d)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
