#!/usr/bin/env python3
# Regenerates MANIFEST.json from checks.py and properties.jsonl: python3 tools/mkmanifest.py
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={}
m=dict(version=1,setup_cmd="python3 -c \"import sys; print(sys.version)\" && g++ --version && python3 -m py_compile run.py checks.py && rm -rf __pycache__",
 hooks=dict(guard="BOOST_ASYNCHRONOUS_VERIF",enable="no hooks are needed: the checks build /repo's headers unmodified; the guard name is reserved and unused",source_commits=[]),
 checks=[dict(property=p["id"],quick_cmd="python3 run.py %s quick"%p["id"],thorough_cmd="python3 run.py %s thorough"%p["id"],evidence_file="evidence/%s.json"%p["id"],
   technique=CHECKS[p["id"]]["technique"],level=CHECKS[p["id"]].get("level","exploration"),level_note=CHECKS[p["id"]]["level_note"]) for p in props if p["id"] in CHECKS],
 not_applicable=[dict(property=p["id"],reason=NA.get(p["id"],"no check built yet")) for p in props if p["id"] not in CHECKS],
 notes="Each check compiles its own harnesses from /repo's working tree into a temporary directory and removes it.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
