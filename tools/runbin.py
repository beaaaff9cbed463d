#!/usr/bin/env python3
"""runbin.py ID PART CMD...: runs a harness. If the process itself dies of a Go panic or fatal error raised
in the code under test (the harness cannot recover a panic of a goroutine the code started), that is
reported as a violation."""
import os, re, subprocess, sys, threading, time
ID,part,cmd=sys.argv[1],sys.argv[2],sys.argv[3:]
REPO=os.environ.get("REPO","/repo"); ROOT=os.environ["VERIF_ROOT"]
t0=time.time()
p=subprocess.Popen(cmd,stderr=subprocess.PIPE)
buf=[]; size=0
for line in iter(p.stderr.readline,b""):
    if size<2_000_000: buf.append(line); size+=len(line)
    if len(buf)<400: sys.stderr.buffer.write(line); sys.stderr.flush()
rc=p.wait()
if rc!=2: sys.exit(rc if rc>=0 else 128-rc)
txt=b"".join(buf).decode(errors="replace")
m=re.search(r"(?m)^(panic: |fatal error: ).*",txt)
if not m: sys.exit(rc)
rest=txt[m.start():]
blocks=re.split(r"\n\n(?=goroutine )",rest)
# The innermost frame that belongs to the repository decides whose fault it is.
asleep="all goroutines are asleep" in m.group(0)
def owner(b):
    for f in re.findall(r"(?m)^\t(\S+?):\d+",b):
        if f.startswith(REPO+"/verifmc/"): return "harness"
        if f.startswith(REPO+"/") or f.startswith("github.com/netsec-ethz/fpki/"): return "code"
    return None
own=None
for b in blocks[1:]:
    o=owner(b)
    if o=="code" or (o and not asleep): own=o
    if own: break
if own!="code": sys.exit(rc)
d=os.path.join(ROOT,"replays"); os.makedirs(d,exist_ok=True)
path=os.path.join(d,f"{ID}-crash{part}.txt"); open(path,"w").write(txt)
print(f"VIOLATION property={ID} replay={path}")
print("  what: the code under test brought the process down: "+m.group(0)); sys.stdout.flush()
# the harness did not live to write its evidence
ev=os.path.join(ROOT,"evidence",ID+".json")
if not os.path.exists(ev) or os.path.getmtime(ev)<t0:
    import json
    os.makedirs(os.path.dirname(ev),exist_ok=True)
    spec=json.load(open(os.path.join(ROOT,"tools","checks.json"))).get(ID,{})
    lv=spec.get("level","exploration")
    json.dump({"property":ID,"level":lv,"tier":os.environ.get("VERIF_TIER","quick"),"seed":int(os.environ.get("VERIF_SEED","1")),
      "coverage":{"evaluations":1,"distinct_nontrivial":0,"states":0,"transitions":0,"traces_validated_against_impl":0,
        "rule":"stopped: the code under test brought the process down","samples":[m.group(0)],"exhaustive":False},
      "assumptions":[],"violations":1,"wall_s":time.time()-t0},open(ev,"w"))
sys.exit(1)
