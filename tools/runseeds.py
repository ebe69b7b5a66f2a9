"""Apply each planted bug to /repo, run the check of its property, undo. usage: runseeds.py [id...]"""
import json, os, subprocess, sys, time
V="/verif"; ids=sys.argv[1:] or sorted(os.listdir(V+"/seeded"))
def g(*a): return subprocess.run(["git","-C","/repo",*a],capture_output=True,text=True)
assert g("status","--porcelain").stdout.strip()==""
for i in ids:
    d=V+"/seeded/"+i; m=json.load(open(d+"/meta.json")); t=time.time()
    r=g("apply",d+"/patch.diff")
    if r.returncode: print(i,"DOES NOT APPLY",r.stderr[:200]); continue
    try: p=subprocess.run([sys.executable,V+"/check.py",m["property"]],capture_output=True,text=True,cwd=V,timeout=1500)
    finally: g("checkout","--",".")
    ok=p.returncode==1 and "VIOLATION property="+m["property"] in p.stdout
    print("%-28s %s %s %.0fs"%(i,m["property"],"caught" if ok else "MISSED rc=%d"%p.returncode,time.time()-t),flush=True)
    if p.returncode not in(0,1): print(p.stdout[-800:],p.stderr[-800:])
