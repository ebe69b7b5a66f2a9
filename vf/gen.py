"""Input generation helpers. The dictionary of literals of the current source tree only widens
the inputs that are tried (values and sizes the code itself mentions); it decides nothing."""
import os, re
from core import REPO
_d=None
def dictionary():
    global _d
    if _d: return _d
    ints=set(); strs=set(); words=set()
    for root in ("src","include"):
        for dp,dn,fn in os.walk(os.path.join(REPO,root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith((".cpp",".h",".tcc")): continue
                t=open(os.path.join(dp,f),errors="replace").read()
                t=re.sub(r"//[^\n]*|/\*.*?\*/","",t,flags=re.S)
                t2=re.sub(r'^\s*#[^\n]*','',t,flags=re.M)
                for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"',t2):
                    if len(m)<=40: strs.add(m)
                for m in re.findall(r"'([^'\\])'",t2): strs.add(m)
                t3=re.sub(r'"(?:[^"\\\n]|\\.)*"','',t2)
                for m in re.findall(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])',t3):
                    try: v=int(m,0)
                    except ValueError: continue
                    ints.add(v)
    _d={"ints":sorted(ints),"strs":sorted(strs)}
    return _d
SIZES=[0,1,2,3,4,5,7,8,9,10,15,16,17,31,32,33,63,64,65,99,100,101,127,128,129,255,256,257]
def sizes(maxn):
    s=set(x for x in SIZES if x<=maxn)
    for v in dictionary()["ints"]:
        for w in (v-1,v,v+1):
            if 0<=w<=maxn: s.add(w)
    return sorted(s)
def large(lo,hi,fixed=(512,513,1023,1024,1025,4096)):
    """a few sizes beyond the usual ones: fixed ones and those the code mentions"""
    s=set(fixed)
    for v in dictionary()["ints"]: s|={v-1,v,v+1,v+2}
    return sorted(x for x in s if lo<x<=hi)
WORDCH="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.+*/%$&@!?:^|~[]'`\\"
def word(r,lo=1,hi=8,chars=WORDCH): return "".join(r.choice(chars) for _ in range(r.randint(lo,hi)))
