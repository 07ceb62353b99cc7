#!/usr/bin/env python3
"""Records the local names and loop counts the contracts were written against (contracts/binders.json)."""
import json, subprocess, os, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bj = V + "/contracts/binders.json"
if os.path.exists(bj): os.rename(bj, bj + ".old")
with tempfile.TemporaryDirectory() as d:
    json.dump({"src": "/repo/src", "contracts": V + "/contracts", "out_rs": d + "/o.rs", "out_json": d + "/o.json", "demote": {}}, open(d + "/c.json", "w"))
    subprocess.check_call([V + "/.build/extract/debug/vextract", d + "/c.json"])
    o = json.load(open(d + "/o.json"))
r = {f["key"]: {"binders": f["binders"], "nloops": f["nloops"], "inits": f["inits"], "heads": f["heads"]} for f in o["fns"] if f["binders"] or f["nloops"]}
json.dump(r, open(bj, "w"), indent=0, sort_keys=True)
if os.path.exists(bj + ".old"): os.remove(bj + ".old")
print(len(r), "functions; missing:", o["missing"], "notes:", o["notes"])

import sys; sys.path.insert(0, V)
import check
json.dump(check.source_literals(), open(V + "/contracts/literals.json", "w"), indent=0, sort_keys=True)
