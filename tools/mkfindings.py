"""Rewrite known_findings.jsonl: fixed entries from the fix: commits of /repo, known entries from tools/known.json"""
import json, subprocess
FIX={ # subject prefix -> (property, what failed)
"comment at the end":("C01","a comment on the last line without newline made the script fail"),
"do not read past the end-of-file":("C02","error recovery at the end of a script read past the token list"),
"an empty configuration":("C01","an empty script was reported as a syntax error"),
"quoted text is literal":("C01","quoted '=', '{', block-type names and empty strings were treated as syntax or dropped"),
"report unterminated":("C02","an unterminated string or inclusion was accepted silently"),
"report configuration files that include":("C02","a file that includes itself recursed until the stack overflowed"),
"sub-blocks of copied":("C07","sub-blocks of copied and merged blocks pointed to the parent of the original"),
"merging copies":("C05","merging shared setting objects between two configurations (double free, aliasing)"),
"redefining a setting":("C06","redefining a setting marked it as used"),
"type test for scalars":("C04","IsScalar/IsNumericVector accepted or rejected the wrong texts"),
"unsigned integer type":("C04","the unsigned type tests accepted negative and too large numbers"),
}
import os
ex="/verif/tools/fixes.json"
if os.path.exists(ex): FIX.update({k:tuple(v) for k,v in json.load(open(ex)).items()})
out=[]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    m=[v for k,v in FIX.items() if s[5:].startswith(k)]
    if not m: print("no entry for",s); continue
    p,w=m[0]; out.append({"id":"fix-"+h,"property":p,"status":"fixed","commit":h,"what":w,"text":"fixed: property=%s %s %s"%(p,h,w)})
if os.path.exists("/verif/tools/known.json"): out+=json.load(open("/verif/tools/known.json"))
open("/verif/known_findings.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
print(len(out),"entries")
