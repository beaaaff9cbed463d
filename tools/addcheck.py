#!/usr/bin/env python3
"""addcheck.py ID 'JSON of the entry': adds or replaces an entry of tools/checks.json."""
import json, sys
f="/verif/tools/checks.json"
d=json.load(open(f)); d[sys.argv[1]]=json.loads(sys.argv[2])
json.dump(d,open(f,"w"),indent=1); open(f,"a").write("\n")
