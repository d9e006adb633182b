#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims=json.load(open(V+"/tools/claims.json"))
props=[json.loads(l) for l in open(V+"/properties.jsonl") if l.strip()]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],
   "notes":"gocv: contract-based deductive verifier for Go built in /verif/engine; see DESIGN.md. No hooks in /repo: specifications and replays are overlaid."}
for p in props:
    c=claims.get(p["id"])
    if c and "level" in c:
        m["checks"].append({"property":p["id"],"quick_cmd":"./check %s"%p["id"],"thorough_cmd":"./check %s thorough"%p["id"],
          "technique":c.get("technique","contracts on the real Go code, verification conditions from SSA discharged by z3/cvc5"),
          "level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":p["id"],"reason":(c or {}).get("reason","No check built yet.")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
