"""For fix commits of /repo: undo each one alone in a scratch copy and confirm that the check of its property reports it.
usage: revertfixes.py [from-sha-prefix ...]"""
import json,subprocess,sys,os,shutil
W="/tmp/rv"; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
es=[json.loads(l) for l in open(V+"/known_findings.jsonl") if '"fixed"' in l]
want=sys.argv[1:]
if want: es=[e for e in es if any(e["commit"].startswith(w) or e["property"]==w for w in want)]
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
for e in es:
    shutil.rmtree(W,ignore_errors=True); sh("git","clone","-q","/repo",W)
    r=sh("git","-C",W,"revert","-n",e["commit"])
    if r.returncode!=0: print(e["commit"],e["property"],"CONFLICT",e["what"][:60],flush=True); continue
    r=sh("python3",V+"/check.py",e["property"],cwd=V,env=dict(os.environ,VERIF_REPO=W))
    ok=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(e["commit"],e["property"],"caught" if r.returncode==1 and ok else "MISSED rc=%d"%r.returncode,e["what"][:70],flush=True)
shutil.rmtree(W,ignore_errors=True)
