"""Write the table of planted bugs into DESIGN.md (by hand, after growing seeded/)."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| Planted bug | Check | Needs | Caught |","|---|---|---|---|"]
missed=set(open(V+"/tools/missed.txt").read().split()) if os.path.exists(V+"/tools/missed.txt") else set()
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"].replace("|","/"),"no" if i in missed else "yes"))
p=V+"/DESIGN.md"; s=open(p).read(); t="<!--seeds-->\n"+"\n".join(rows)+"\n<!--/seeds-->"
s=s.replace("SEEDTABLE",t) if "SEEDTABLE" in s else re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
