#!/usr/bin/env python3
# addfix.py PROPERTY COMMIT WHAT: append a repaired defect to known_findings.jsonl
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps(dict(status="fixed",property=p,line=f"fixed: property={p} {c} {w}"))+'\n')
