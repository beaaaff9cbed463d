#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.json and properties.jsonl."""
import json
C=json.load(open("/verif/tools/checks.json"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA=json.load(open("/verif/tools/not_applicable.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in C and not C[i].get("draft"):
        c=C[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=c["technique"],level=c["level"],level_note=c["note"]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none (no hooks in /repo; harnesses are compiled in through build overlays)",enable="go build -overlay (tools/build.py)",source_commits=[]),
  checks=checks,not_applicable=na,notes="Each check rebuilds from /repo's working tree through a build overlay in a scratch directory under /tmp.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
