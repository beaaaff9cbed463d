#!/usr/bin/env python3
"""build.py ID WORK: builds the harness(es) of property ID from the current repo tree into WORK and
writes WORK/run, the script that executes the check."""
import json, os, re, subprocess, sys, glob, shutil
ROOT=os.environ["VERIF_ROOT"]; REPO=os.environ.get("REPO","/repo")
ID,WORK=sys.argv[1],sys.argv[2]
spec=json.load(open(os.environ.get("VERIF_CHECKS") or os.path.join(ROOT,"tools","checks.json")))[ID]

def overlay_mc(ov, srcroot=os.path.join(ROOT,"mc")):
    for d,_,files in os.walk(srcroot):
        for f in files:
            if f.endswith(".go"):
                rel=os.path.relpath(os.path.join(d,f),srcroot)
                ov[os.path.join(REPO,"verifmc",rel)]=os.path.join(d,f)

def sh(cmd,**kw):
    p=subprocess.run(cmd,cwd=REPO,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if p.returncode!=0:
        print("FAILED:"," ".join(cmd)); print(p.stdout[-6000:])
        sys.exit(3)
    return p.stdout

lines=["cd \"$VERIF_WORK\"","rc=0"]
n=0
for part in spec["parts"]:
    n+=1
    ov={}
    overlay_mc(ov)
    for dst,src in part.get("overlay",{}).items():
        ov[os.path.join(REPO,dst)]=os.path.join(ROOT,src)
    for pkg,m in part.get("rename",{}).items():  # {"pkg": {"Func": "newName"}}: renames declarations of functions
        rgen=os.path.join(WORK,f"ren{n}"); os.makedirs(rgen,exist_ok=True)
        for f in glob.glob(os.path.join(REPO,pkg,"*.go")):
            if f.endswith("_test.go"): continue
            src=open(f).read(); new=src
            for a,b in m.items(): new=re.sub(r"(?m)^func "+a+r"\b","func "+b,new)
            if new!=src:
                dst=os.path.join(rgen,pkg.replace("/","_")+"_"+os.path.basename(f)); open(dst,"w").write(new); ov[f]=dst
    for pkg,m in part.get("consts",{}).items():  # {"pkg": {"name": "value"}}: gives integer constants another value (where they exist)
        cgen=os.path.join(WORK,f"con{n}"); os.makedirs(cgen,exist_ok=True)
        for f in glob.glob(os.path.join(REPO,pkg,"*.go")):
            if f.endswith("_test.go"): continue
            src=open(ov.get(f,f)).read(); new=src
            for a,b in m.items(): new=re.sub(r"(?m)^((?:const\s+|\s+)"+a+r"\b[^=\n]*=\s*)[\d_]+\s*$",r"\g<1>"+b,new)
            if new!=src:
                dst=os.path.join(cgen,pkg.replace("/","_")+"_"+os.path.basename(f)); open(dst,"w").write(new); ov[f]=dst
    for pkg in part.get("vos",[]):  # packages whose use of package os goes through verifmc/vos
        vgen=os.path.join(WORK,f"vos{n}"); os.makedirs(vgen,exist_ok=True)
        for f in glob.glob(os.path.join(REPO,pkg,"*.go")):
            if f.endswith("_test.go"): continue
            src=open(ov.get(f,f)).read()
            new=re.sub(r'(?m)^((?:import\s+)?\s*)"os"\s*$',r'\1os "github.com/netsec-ethz/fpki/verifmc/vos"',src)
            if new!=src:
                dst=os.path.join(vgen,pkg.replace("/","_")+"_"+os.path.basename(f)); open(dst,"w").write(new); ov[f]=dst
    binp=os.path.join(WORK,f"bin{n}")
    if part.get("instr") is not None:
        gen=os.path.join(WORK,f"gen{n}"); os.makedirs(gen)
        ovf0=os.path.join(WORK,f"ov0_{n}.json"); json.dump({"Replace":ov},open(ovf0,"w"))
        instr=os.path.join(WORK,"instr")
        if not os.path.exists(instr):
            env=dict(os.environ); env["GOFLAGS"]="-mod=mod"
            p=subprocess.run(["go","build","-o",instr,"."],cwd=os.path.join(ROOT,"tools","instr"),
                stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
            if p.returncode!=0:
                print(p.stdout); sys.exit(3)
        sh([instr,"-repo",REPO,"-overlay",ovf0,"-gen",gen,"-out",os.path.join(WORK,f"ov{n}.json"),
            "-pkgs",",".join(part["instr"])]+(["-yield",",".join(part["yield"])] if part.get("yield") else [])
            +(["-main",part["harness"]] if part.get("harness") else [])
            +(["-renamemain",part["renamemain"]] if part.get("renamemain") else []))
    else:
        json.dump({"Replace":ov},open(os.path.join(WORK,f"ov{n}.json"),"w"))
    cmd=["go","build","-overlay",os.path.join(WORK,f"ov{n}.json"),"-buildvcs=false","-o",binp]
    if part.get("race"): cmd[2:2]=["-race","-gcflags=github.com/netsec-ethz/fpki/verifmc/vrt=-race=false"]
    if part.get("test"):
        cmd[1]="test"; cmd.insert(2,"-c"); cmd.insert(3,"-vet=off"); cmd.remove("-buildvcs=false")
        cmd.append("./"+part["test"])
    else:
        cmd.append("./"+part.get("buildpkg","verifmc/"+part.get("harness","")))
    sh(cmd)
    pre=f"VERIF_PART={n} "+" ".join(f"{k}='{v}'" for k,v in part.get("env",{}).items())+" "+part.get("pre","")
    args=part.get("args","")
    if part.get("script"):
        lines.append(f'{pre} bash "$VERIF_ROOT/{part["script"]}" {binp} {args}; rc=$?; [ $rc -ne 0 ] && exit $rc')
    else:
        lines.append(f'{pre} python3 "$VERIF_ROOT/tools/runbin.py" {ID} {n} {binp} {args}; rc=$?; [ $rc -ne 0 ] && exit $rc')
lines.append("exit $rc")
open(os.path.join(WORK,"run"),"w").write("\n".join(lines)+"\n")
