"""Plant a bug: make the patch in a scratch copy, confirm build + tests + demo, store under seeded/<id>.
Used by hand when growing the suite; no check reads it."""
import json, os, subprocess, sys, shutil
WT="/tmp/seedwt"; V="/verif"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def prepare():
    if not os.path.isdir(WT):
        sh("cp -a /repo %s && rm -rf %s/_build"%(WT,WT))
        for n in ("build","test"):
            open("%s/../seed_%s.sh"%(WT,n),"w").write(open("/opt/vp/%s.sh"%n).read().replace("/repo",WT).replace("/opt/vp/build.sh","/tmp/seed_build.sh"))
    sh("git -C %s fetch -q %s HEAD && git -C %s reset -q --hard FETCH_HEAD"%(WT,os.environ.get("SEEDR","/repo"),WT))
DEMO='''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken. Run in the repository after the build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -w -fopenmp %s -I"$R/_build/include" -I"$R/include" -I"$R/src" -I/usr/include/hdf5/serial "$D/demo.cpp" "$R/_build/src/libsoftlib.a" \\
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lgsl -lgslcblas -lpng -lz -lm -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
HEAD='''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <cmath>
#define CHECK(c) do{ if(!(c)){ fprintf(stderr,"demo: broken: %s (line %d)\\n",#c,__LINE__); exit(1);} }while(0)
using namespace std;
'''
def seed(id,prop,edits,needs,breaks,demo,flags="",ticked=True):
    """edits: list of (file, old, new)"""
    prepare(); d=os.path.join(V,"seeded",id)
    for f,o,n in edits:
        p=os.path.join(WT,f); s=open(p).read()
        if s.count(o)!=1: print(id,"FAIL: %d matches in %s: %r"%(s.count(o),f,o[:60])); return False
        open(p,"w").write(s.replace(o,n))
    diff=sh("git -C %s diff"%WT).stdout
    if sh("bash /tmp/seed_test.sh /tmp/seed_out.json").returncode: pass
    r=json.load(open("/tmp/seed_out.json"))
    base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not base<=set(r["passed"]): print(id,"FAIL: tests fail",base-set(r["passed"]), sh("bash /tmp/seed_build.sh").stdout[-1500:]); sh("git -C %s checkout -- ."%WT); return False
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+"/demo.cpp","w").write(HEAD+demo); open(d+"/demo.sh","w").write(DEMO%flags); os.chmod(d+"/demo.sh",0o755)
    bad=sh("bash %s/demo.sh"%d,cwd=WT)
    sh("git -C %s checkout -- ."%WT); b=sh("bash /tmp/seed_build.sh")
    good=sh("bash %s/demo.sh"%d,cwd=WT)
    if good.returncode!=0 or bad.returncode in(0,3): print(id,"FAIL demo good=%s bad=%s\n%s\n%s"%(good.returncode,bad.returncode,good.stdout[-1500:],bad.stdout[-600:])); shutil.rmtree(d); return False
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    print(id,"ok  demo:",bad.stdout.strip()[-150:]); return True
