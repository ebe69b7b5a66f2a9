"""MANIFEST.json from the list of built checks."""
import json, os, re
V="/verif"; props=[json.loads(l) for l in open(V+"/properties.jsonl")]
built=set()
for f in os.listdir(V+"/vf"):
    if f.startswith("c_"): built|=set(re.findall(r"^def check_(\w+)\(",open(V+"/vf/"+f).read(),re.M))
NA={}
import sys; sys.path.insert(0,V+"/vf")
try: from levels import NOTE
except ImportError: NOTE={}
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[],"notes":"TLA+ specifications in spec/, checked with TLC; vf/ generates histories and records traces of the real code (harness/), TLC validates every trace against the specification. See DESIGN.md."}
for p in props:
    i=p["id"]
    if i in built:
        m["checks"].append({"property":i,"quick_cmd":"VERIF_TIER=quick python3 check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%i,"evidence_file":"evidence/%s.json"%i,
          "technique":"TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC (spec-generated histories replayed, plus randomised histories)","level":"model_checking",
          "level_note":NOTE.get(i,"design exhaustively checked within the stated bounds; code judged on the recorded traces")})
    else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"specified in properties.jsonl; check not built yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks;",[x["property"] for x in m["not_applicable"]])
