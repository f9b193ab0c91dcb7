#!/usr/bin/env python3
# Writes MANIFEST.json from the table of the checks.
import json, os
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.join(here,"..")
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
exec(open(os.path.join(here,"checks.py")).read())
checks=[]; na=[]
for i in props:
    if i in CHECKS:
        t,n=CHECKS[i]
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":t,"level":"exploration","level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"the check is not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none: accessors are injected with go build -overlay, /repo has no hook commits",
  "enable":"build.sh passes -overlay with harness/hooks/*.go.txt and the tags hook_<package>__<item>","source_commits":[]},
  "checks":checks,"not_applicable":na,
  "notes":"check.sh ID [replay] rebuilds the harness from /repo's working tree. See DESIGN.md."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
