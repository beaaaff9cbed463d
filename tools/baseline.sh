#!/bin/bash
# runs the repository's own tests and prints the stable ones that fail
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/out.json'))['passed'])
m=sorted(b-o); print("stable",len(b),"missing",len(m)); print("\n".join(m[:30]))
PY
