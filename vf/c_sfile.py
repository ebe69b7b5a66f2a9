"""S01-S05: data files in the three formats."""
from core import *
import gen, math, struct
FMTS=["sdt","h5","mat"]
INTS={"i32":(-2**31,2**31-1),"i64":(-2**63,2**63-1),"u32":(0,2**32-1),"u64":(0,2**64-1)}
TYS=["f64","i32","i64","u32","u64"]
READ2={"f64":"doubles","i32":"i32_2","i64":"i64_2","u32":"u32_2","u64":"u64_2"}
READ1={"f64":"doubles1","i32":"i32_1","i64":"i64_1","u32":"u32_1","u64":"u64_1"}
READ0={"f64":"scalar","i32":"i32","i64":"i64","u32":"u32","u64":"u64"}
ALLHOW=["doubles","i32_2","i64_2","u32_2","u64_2","intarray","list","doubles1","i32_1","i64_1","u32_1","u64_1","intlist","scalar","i32","i64","u32","u64","int","string"]
def fnum(d):
    if d!=d: return "nan"
    if math.isinf(d): return "inf" if d>0 else "-inf"
    if d==0: return "-0" if math.copysign(1,d)<0 else "0"
    if abs(d)<9e15 and d==math.floor(d): return "%d"%d
    # as C's %a
    m,e=math.frexp(abs(d)); 
    h=abs(d).hex(); mant,ex=h[2:].split("p"); mant=mant.rstrip("0") if "." in mant else mant
    if mant.endswith("."): mant=mant[:-1]
    return ("-" if d<0 else "")+"0x"+mant+"p"+ex
SPECD=[0.0,-0.0,1.0,-1.0,0.1,1/3,math.pi,1e-5,123456.789,1234567.0,1e15,-1e16,2.0**53,2.0**53+2,1e300,5e-324,2.2250738585072014e-308,1.7976931348623157e308,math.inf,-math.inf,math.nan,1.0000000000000002,0.30000000000000004,6.02214076e23,9.1093837015e-31,100000.0,999999.5]
def dbl(r):
    k=r.random()
    if k<.3: return r.choice(SPECD)
    if k<.5: return struct.unpack("<d",struct.pack("<Q",r.getrandbits(64)))[0]
    if k<.7: return r.uniform(-10,10)
    if k<.8: return float(r.randint(-1000,1000))
    return r.gauss(0,1)*10.0**r.randint(-30,30)
def elem(r,t):
    if t=="f64": return fnum(dbl(r))
    lo,hi=INTS[t]; k=r.random()
    if k<.25: v=r.choice([lo,hi,0,1,lo+1,hi-1,2**31-1,2**31,2**32-1,2**32,2**53,2**53+1,-1,-2,127,128,255,256,32767,32768,65535,65536])
    elif k<.6: v=r.randint(-1000,1000)
    else: v=r.randint(lo,hi)
    return str(min(max(v,lo),hi))
def fits(t,e):
    f=[]
    ints=all(x.lstrip("-").isdigit() and x!="-0" for x in e)
    if t=="f64" or all(abs(int(x))<9*10**15 for x in e): f.append("f64")
    if ints:
        v=[int(x) for x in e]
        for k,(lo,hi) in INTS.items():
            if all(lo<=x<=hi for x in v): f.append(k)
    return f
def num(t,d,e): return {"k":"num","t":t,"d":list(d),"e":e,"fits":fits(t,e)}
def text(b): return {"k":"text","t":"text","d":[],"e":list(b),"fits":[]}
def rnum(r,t,d,small=False):
    n=1
    for x in d: n*=x
    if small: return num(t,d,[str(r.randint(0,99)) for _ in range(n)])
    return num(t,d,[elem(r,t) for _ in range(n)])
def rtext(r):
    n=r.choice([0,1,2,3,5,8,20,r.randint(0,60)])
    if r.random()<.004: n=r.choice(gen.large(300,9000))
    k=r.random()
    if k<.4: return text([r.randint(32,126) for _ in range(n)])
    if k<.6: return text([r.choice([32,9,10,13,64,34,92,127,128,255,1]) for _ in range(n)])
    if k<.8: return text([ord(c) for c in r.choice(["@matrix a 1 1","@string","hello world","a\nb","  lead","trail  ","-5","nan","","x"*200])])
    return text([r.randint(1,255) for _ in range(n)])
def names(r,fmt,k):
    """k distinct names (single components)"""
    pool=[]
    m=r.random()
    if m<.4: pool=["a","b","c","A","ab","abc","a_b","b_c"]
    elif m<.6: pool=["x%d"%i for i in range(40)]
    else:
        pool=[gen.word(r,1,12,gen.WORDCH.replace("/","")) for _ in range(8)]+["@matrix","@string","n"*100,"_","a_","r","z","Br","verBphi"]
        pool+= [w for w in gen.dictionary()["strs"] if w and w.isascii() and w.isprintable() and not any(c in w for c in " /\t") ][:200:7]
    while len(set(pool))<k: pool.append(gen.word(r,3,9,"abcdefghij"))
    pool=sorted({p for p in pool if p.strip(".")})
    r.shuffle(pool)
    return pool[:k]
def wvalue(r,sz=None):
    """(how,value) a random write; sz bounds the number of elements"""
    sz=sz or r.choice([1,2,3,4,6,10])
    k=r.random()
    if k<.18: return "string",rtext(r)
    if k<.26: return "scalar",rnum(r,"f64",[1])
    t=r.choice(["f64","f64"]+TYS)
    if k<.6: return r.choice(["list","listov"]),rnum(r,t,[r.choice([0,1,1,sz,r.randint(1,sz)])])
    d=r.choice([[1,1],[1,sz],[sz,1],[r.randint(1,sz),r.randint(1,sz)],[2,3],[0,2],[2,0],[r.randint(1,4),r.randint(1,4)]])
    if k<.66: n=max(d[0],1); return "image",rnum(r,"f64",[n,n])
    return r.choice(["mat","matov"]),rnum(r,t,d)
def op_open(h,f,fmt,mode,via="create",dir="ok",**kw): return dict({"op":"open","h":h,"f":f,"fmt":fmt,"mode":mode,"via":via,"dir":dir},**kw)
def write(r,h,name,how,val):
    o={"op":"multi" if how=="multi" else "write","h":h,"name":name,"how":how,"val":val}
    if r.random()<.3: o["split"]=True
    return o
def reads(r,h,name,v,full=True):
    """suitable reads of a stored value"""
    o=[]
    if v["k"]=="text": o=["string"]
    elif len(v["d"])<=2:
        d=v["d"] if len(v["d"])==2 else [1,v["d"][0]]
        ts=[t for t in TYS if t in v["fits"]]
        hows=[READ2[t] for t in ts]+(["intarray"] if "i64" in v["fits"] else [])
        if 1 in d: hows+= [READ1[t] for t in ts]+(["list"] if "f64" in ts else [])+(["intlist"] if "i64" in v["fits"] else [])
        if d==[1,1]: hows+= [READ0[t] for t in ts]+(["int"] if "i64" in v["fits"] else [])
        o=hows if full else r.sample(hows,min(2,len(hows)))
    out=[{"op":"get","h":h,"name":name,"how":x} for x in o]
    return out
def roundtrip(r,fmt,nvars,sz=None,vals=None):
    ns=names(r,fmt,nvars); ops=[op_open(1,1,fmt,"w",via=r.choice(["create","typed","object"]))]
    st={}
    vals=vals or [wvalue(r,sz) for _ in ns]
    for n,(how,v) in zip(ns,vals): ops.append(write(r,1,[n],how,v)); st[n]=v
    ops.append({"op":"close","h":1}); ops.append({"op":"del","h":1})
    ops.append(op_open(1,1,fmt,"r",via=r.choice(["create","typed","object"])))
    order=list(st); r.shuffle(order)
    for n in order: ops+=[{"op":"has","h":1,"name":[n]},{"op":"type","h":1,"name":[n],"hint":"undef"}]+reads(r,1,[n],st[n])
    ops.append({"op":"has","h":1,"name":["nope"]})
    return {"ops":ops}
def byhand(r):
    """a text file as a person would write it"""
    t=[]; vs=[]
    def ws(): return r.choice([" ","  ","\t"," \t "])
    for n in names(r,"sdt",r.randint(1,5)):
        if r.random()<.3:
            s=rtext(r); vs.append({"name":[n],"val":s})
            t.append("@string"+ws()+n+ws()+str(len(s["e"]))+"\n"+" ".join(str(c if c<128 else c-256 if r.random()<.5 else c) for c in s["e"])+"\n")
        else:
            d=[r.randint(1,4),r.randint(1,4)]; e=[]; rows=[]
            for i in range(d[0]):
                row=[]
                for j in range(d[1]):
                    x=r.choice([lambda:(str(r.randint(-99,99)),)*2,lambda:("%.3f"%r.uniform(-9,9),)*2,lambda:("%.5e"%r.gauss(0,1),)*2,lambda:("%g"%r.gauss(0,1e3),)*2,lambda:("+1.5","1.5"),lambda:(".5","0.5"),lambda:("1e3","1000"),lambda:("-0","-0.0"),lambda:("2.","2"),lambda:("007","7")])()
                    row.append(x[0]); e.append(fnum(float(x[1])))
                rows.append((ws() if r.random()<.2 else "")+ws().join(row)+(" " if r.random()<.5 else ""))
            v=num("f64",d,e); vs.append({"name":[n],"val":v})
            t.append("@matrix"+ws()+n+ws()+str(d[0])+ws()+str(d[1])+(" " if r.random()<.3 else "")+"\n"+"\n".join(rows)+"\n")
    tx=""
    for x in t: tx+=x+r.choice(["\n","","\n\n","  \n","\t\n\n"])
    if r.random()<.3: tx=tx.rstrip("\n") if tx and not any(v["val"]["k"]=="text" and not v["val"]["e"] for v in vs) else tx
    if r.random()<.2: tx="\n"+tx
    ops=[{"op":"byhand","f":1,"vars":vs,"text":[ord(c) for c in tx]},op_open(1,1,"sdt","r")]
    for v in vs: ops+=[{"op":"has","h":1,"name":v["name"]}]+reads(r,1,v["name"],v["val"],False)
    if r.random()<.4:
        ops+=[{"op":"del","h":1},op_open(1,1,"sdt","u"),write(r,1,["added"],"list",rnum(r,"f64",[2])),{"op":"close","h":1},{"op":"del","h":1},op_open(1,1,"sdt","r")]
        for v in vs: ops+=reads(r,1,v["name"],v["val"],False)
        ops+=[{"op":"get","h":1,"name":["added"],"how":"list"}]
    return {"ops":ops}
# ---- histories over sessions
W=dict(open=3,close=1.5,del_=.7,write=6,struct=1,attr=1,has=1,type=.5,get=2,bad=.7,multi=.5,getattr=.5,getmulti=.5,hash=.3)
def history(r,nops,weights={},fmt=None,NF=3,NH=3,audit=True):
    w=dict(W); w.update(weights); kinds=list(w); ws=[w[k] for k in kinds]
    fmt=fmt or r.choice(FMTS); nms=names(r,fmt,r.choice([2,4,8])); ops=[]
    H=[None]*(NH+1)   # None / ["closed"] / ["open",f,mode]
    F=[None]*(NF+1)   # None or dict name->value (approximate, only to steer)
    G=[set() for _ in range(NF+1)]; A=[{} for _ in range(NF+1)]
    cfg=r.random()
    vpool=[wvalue(r,4) for _ in range(6)]
    def nm():
        n=r.choice(nms); k=r.random()
        return [n] if k<.75 else ["g",n] if k<.95 else ["g","h",n]
    def known(f):
        l=list(F[f] or {}); return list(r.choice(l)) if l and r.random()<.8 else nm()
    def canopen(h,f,m): return all(not(H[x] and H[x][0]=="open" and H[x][1]==f and (m!="r" or H[x][2]!="r")) for x in range(1,NH+1) if x!=h)
    while len(ops)<nops:
        k=r.choices(kinds,ws)[0]
        opn=[h for h in range(1,NH+1) if H[h] and H[h][0]=="open"]
        if k not in("open","hash") and not opn: k="open"
        if k=="open":
            h=r.randint(1,NH); f=r.randint(1,NF); m=r.choice("rwwuur") if F[f] is not None else r.choice("rwwwu"); bad=r.random()<.04
            if not canopen(h,f,m): continue
            via="reopen" if H[h] else r.choice(["create","typed","object"])
            ops.append(op_open(h,f,fmt,m,via,"none" if bad else "ok"))
            good=not bad and (m=="w" or F[f] is not None)
            if good:
                H[h]=["open",f,m]
                if m=="w": F[f]={}; G[f]=set(); A[f]={}
            elif via=="reopen": H[h]=["closed"]
            continue
        if k=="hash": ops.append({"op":"hash","f":r.randint(1,NF)}); continue
        if k=="close":
            h=r.choice([h for h in range(1,NH+1) if H[h]]); ops.append({"op":"close","h":h}); H[h]=["closed"]; continue
        if k=="del_":
            h=r.choice([h for h in range(1,NH+1) if H[h]])
            if H[h][0]=="open" and H[h][2]!="r" and r.random()<.5: ops.append({"op":"close","h":h})
            ops.append({"op":"del","h":h}); H[h]=None; continue
        if k in("write","struct","attr","multi"):
            wr=[h for h in opn if H[h][2]!="r"]
            if not wr or r.random()<.05: wr=opn
            h=r.choice(wr); f=H[h][1]; rw=H[h][2]!="r"
            if k=="struct":
                p=r.choice([["g"],["g"],["g","h"],[r.choice(nms)]])
                ops.append({"op":"struct","h":h,"name":p}); 
            elif k=="attr":
                v=rnum(r,"f64",[1]) if r.random()<.5 else rtext(r); ds=known(f); an=r.choice(["u","unit","u_v",nms[0]])
                ops.append({"op":"attr","h":h,"ds":ds,"an":an,"val":v}); A[f][(tuple(ds),an)]=v
            elif k=="multi":
                d=[r.randint(1,3) for _ in range(r.randint(1,5))]; t=r.choice(TYS); n=nm(); v=rnum(r,t,d)
                ops.append(write(r,h,n,"multi",v))
                if rw: F[f].setdefault(tuple(n),v)
            else:
                n=nm() if r.random()<.85 else known(f); how,v=r.choice(vpool) if r.random()<.5 else wvalue(r,4)
                ops.append(write(r,h,n,how,v))
                if rw: F[f][tuple(n)]=v
            continue
        rd=[h for h in opn if fmt!="sdt" or H[h][2]=="r"]
        if not rd: continue
        h=r.choice(rd); f=H[h][1]
        if k=="has": ops.append({"op":"has","h":h,"name":known(f)})
        elif k=="type": ops.append({"op":"type","h":h,"name":known(f),"hint":r.choice(["undef","f64","i32","i64","u32","u64","text"])})
        elif k=="get":
            n=known(f); v=(F[f] or {}).get(tuple(n))
            o=reads(r,h,n,v,False) if v else [{"op":"get","h":h,"name":n,"how":r.choice(ALLHOW)}]
            ops+=o
        elif k=="bad": ops.append({"op":"get","h":h,"name":known(f),"how":r.choice(ALLHOW)})
        elif k=="getattr":
            ks=list(A[f])
            ds,an=(r.choice(ks) if ks and r.random()<.7 else (tuple(known(f)),r.choice(["u","nope"])))
            ops.append({"op":"getattr","h":h,"ds":list(ds),"an":an,"how":r.choice(["string","scalar"])})
        elif k=="getmulti": ops.append({"op":"getmulti","h":h,"name":known(f),"max":r.choice([1,2,3,4,6,6,6]),"how":r.choice(["linear","pointer"])})
    if audit: ops+=audit_ops(r,ops,fmt,NF,NH,H)
    return {"ops":ops}
def audit_ops(r,ops,fmt,NF,NH,H=None):
    """close everything, then look at every file for every name that was ever mentioned"""
    o=[]; live=set()
    for x in ops:
        if x["op"]=="open":live.add(x["h"])
        if x["op"]=="del":live.discard(x["h"])
    if H is not None: live={h for h in range(1,NH+1) if H[h]}
    for h in sorted(live): o+=[{"op":"close","h":h},{"op":"del","h":h}]
    nm={}; at=set()
    for x in ops:
        if x["op"] in("write","multi"): nm.setdefault(tuple(x["name"]),set()).add(x["val"]["k"])
        if x["op"]=="attr": at.add((tuple(x["ds"]),x["an"],"string" if x["val"]["k"]=="text" else "scalar"))
    for f in range(1,NF+1):
        o.append(op_open(1,f,fmt,"r",audit=True))
        o.append({"op":"AUDIT","f":f,"nm":sorted(nm),"at":sorted(at)})
    return o
def expand(ops,r,fmt,NF):
    """replace AUDIT marks; needs to know which files exist: steer by replaying opens"""
    exist=set(); out=[]; have=False; same=r.random()<.5
    for x in ops:
        if x["op"]=="open" and x["dir"]=="ok" and x["mode"]=="w": exist.add(x["f"])
        if x["op"]=="AUDIT":
            f=x["f"]
            if f not in exist: continue
            for n in x["nm"]:
                n=list(n); out.append({"op":"has","h":1,"name":n}); out.append({"op":"type","h":1,"name":n,"hint":"undef"})
                for how in ("doubles","string","i64_2","u64_2"): out.append({"op":"get","h":1,"name":n,"how":how})
                out.append({"op":"getmulti","h":1,"name":n,"max":6,"how":"linear"})
            for ds,an,how in x["at"]: out.append({"op":"getattr","h":1,"ds":list(ds),"an":an,"how":how})
            if same: have=True      # look at the next file through the same object
            else: out.append({"op":"del","h":1})
            continue
        if x.get("audit"):
            x=dict(x); x.pop("audit")
            if have: x["via"]="reopen"
        out.append(x)
    return out
def finishcase(r,c,fmt,NF=3):
    c["ops"]=expand(c["ops"],r,fmt,NF); return c
def hist(r,n,weights={},fmt=None):
    fmt=fmt or r.choice(FMTS); return finishcase(r,history(r,n,weights,fmt),fmt)
def modelled(ctx,cap):
    model_check(ctx,"MCSFile",what="one file, two handles, histories of 5 calls in each format: contents are what the history wrote, no replacement, isolation, updates keep, reads pure")
    e=model_check(ctx,"MCSFile","CovSFile.cfg",what="two files, one handle: a history for every distinct state after 5 calls, replayed in the code")["emits"]
    if ctx.quick: e=ctx.rng.sample(e,min(len(e),cap))
    e+=model_check(ctx,"MCSFile","SimSFile.cfg",args=("-simulate","num=%d"%ctx.n(40,500),"-depth","26","-seed",str(ctx.seed)),what="random histories of 24 calls on three files, replayed in the code")["emits"]
    out=[]
    for x in e:
        ops=x["ops"]
        # the handle on which nothing may be read in the text format is fine: the specification leaves it open
        out.append(finishcase(ctx.rng,{"ops":ops+audit_ops(ctx.rng,ops,x["fmt"],3 if len(ops)>10 else 2,2,livemap(ops))},x["fmt"]))
    return out
def livemap(ops):
    """handle objects that exist at the end"""
    ex=set(); H=[None]*4
    for o in ops:
        if o["op"]=="open":
            good=o["dir"]=="ok" and (o["mode"]=="w" or o["f"] in ex)
            if good and o["mode"]=="w": ex.add(o["f"])
            if good or H[o["h"]]: H[o["h"]]=["x"]
        elif o["op"]=="del": H[o["h"]]=None
    return H
def corrupt(ev):
    for e in reversed(ev):
        if e["op"]=="get" and e["res"]["k"]=="ok" and e["res"]["e"]:
            x=e["res"]["e"]; x[-1]=(x[-1]+1)%256 if isinstance(x[-1],int) else x[-1]+"1"; return ev
        if e["op"]=="has" and e["res"]["k"]=="ok": e["res"]["b"]=not e["res"]["b"]; return ev
def run(ctx,cases,name):
    b=build(ctx,"h_sfile")
    res=conformance(ctx,b,"TSFile",cases,name=name,chunk=1500)
    binding_demo(ctx,"TSFile",[(c["id"],res[c["id"]]) for c in cases[:400] if res.get(c["id"])],corrupt)
    ctx.assumptions+=["text holds no NUL; names have no blanks","64-bit integers beyond 2^53 are not demanded of the text format, whose specification is double precision"]
def check_S01(ctx):
    r=ctx.rng; cases=modelled(ctx,300)
    for i in range(ctx.n(700,9000)): cases.append(roundtrip(r,FMTS[i%3],r.choice([1,2,5,8])))
    for n in gen.sizes(ctx.n(260,600)):
        for f in FMTS:
            t=r.choice(TYS)
            cases.append(roundtrip(r,f,3,vals=[("list",rnum(r,t,[n])),("string",text([r.randint(1,255) for _ in range(n)])),("mat",rnum(r,r.choice(TYS),r.choice([[1,max(n,1)],[max(n,1),1],[2,max(n,1)]]) if n<300 else [3,n]))]))
    for n in gen.large(300,9000):
        for f in FMTS: cases.append(roundtrip(r,f,3,vals=[("list",rnum(r,r.choice(TYS),[n])),("string",text([r.randint(1,255) for _ in range(n)])),("mat",rnum(r,r.choice(TYS),r.choice([[1,n],[n,1]])))]))
    for f in FMTS:
        for t in TYS:
            for d in ([1,1],[1,2],[2,1],[2,2],[3,4],[17,5],[5,17],[40,40]): cases.append(roundtrip(r,f,1,vals=[("mat",rnum(r,t,d))]))
            lo=[elem(r,t) for _ in range(60)]; cases.append(roundtrip(r,f,1,vals=[("list",num(t,[60],lo))]))
        cases.append(roundtrip(r,f,1,vals=[("list",num("f64",[len(SPECD)],[fnum(x) for x in SPECD]))]))
        for k in range(0,255,51): cases.append(roundtrip(r,f,1,vals=[("string",text(range(k+1,k+52)))]))
        for n in (20,60,ctx.n(150,400)): cases.append(roundtrip(r,f,n,sz=3))
    for _ in range(ctx.n(250,3000)): cases.append(byhand(r))
    run(ctx,cases,"round trips")
def check_S02(ctx):
    r=ctx.rng; cases=modelled(ctx,1500)
    for i in range(ctx.n(900,9000)): cases.append(hist(r,r.choice([8,16,30]),dict(open=4,close=2,get=1,bad=.3,type=.2),FMTS[i%3]))
    for i in range(ctx.n(30,400)): cases.append(hist(r,100,{},FMTS[i%3]))
    for i in range(ctx.n(20,100)):          # many variables, some of them defined again as something else
        n=r.choice([7,12,30]); ops=[op_open(1,1,"sdt","w")]; W=lambda j:ops.append(write(r,1,["v%d"%j],*wvalue(r,2)))
        for j in range(n): W(j)
        for j in r.sample(range(n),n//2): W(j)
        ops.append({"op":"close","h":1})
        if r.random()<.5:
            ops.append(op_open(1,1,"sdt","u"))
            for j in r.sample(range(n+2),n//2): W(j)
            ops.append({"op":"close","h":1})
        ops.append(op_open(1,1,"sdt","r"))
        for j in range(n+2): ops+=[{"op":"has","h":1,"name":["v%d"%j]},{"op":"type","h":1,"name":["v%d"%j],"hint":"undef"}]+[{"op":"get","h":1,"name":["v%d"%j],"how":h} for h in r.sample(ALLHOW,3)]
        cases.append({"ops":ops})
    run(ctx,cases,"session histories")
def check_S03(ctx):
    r=ctx.rng; cases=modelled(ctx,200)
    for i in range(ctx.n(700,7000)):
        fmt=FMTS[i%3]; c=roundtrip(r,fmt,r.choice([1,2,4])); ops=c["ops"]; k=[j for j,o in enumerate(ops) if o["op"]=="del"][0]
        head,tail=ops[:k+2],ops[k+2:]
        st=[(o["name"],o["val"]) for o in head if o["op"]=="write"]
        seq=[{"op":"hash","f":1}]
        pool=[o for o in tail]+[{"op":"type","h":1,"name":n,"hint":h} for n,_ in st for h in("undef","i32","text")]
        for n,v in st: pool+= [{"op":"get","h":1,"name":n,"how":r.choice(ALLHOW)}]
        for n,v in st:
            x=reads(r,1,n,v); pool+=x*2
            if fmt!="sdt" and v["k"]=="num": pool+= [{"op":"getmulti","h":1,"name":n,"max":6,"how":w} for w in("linear","pointer")]
        for _ in range(r.choice([10,25,50])):
            seq.append(r.choice(pool)); 
            if r.random()<.1: seq+=[seq[-1]]*r.randint(1,3)
        if r.random()<.3:
            seq+=[op_open(2,1,fmt,"r")]+[dict(r.choice(pool),h=r.choice([1,2])) for _ in range(12)]
        seq+=[{"op":"hash","f":1},{"op":"close","h":1},{"op":"hash","f":1},{"op":"del","h":1},op_open(1,1,fmt,"r",via=r.choice(["create","object"]))]+[r.choice(pool) for _ in range(5)]
        cases.append({"ops":head+seq})
    run(ctx,cases,"repeated reads")
def check_S04(ctx):
    r=ctx.rng; cases=modelled(ctx,300)
    W4=dict(bad=6,get=1,type=3,has=2,getattr=2,getmulti=2,write=5,open=1.5)
    for i in range(ctx.n(500,6000)): cases.append(hist(r,r.choice([15,30]),W4,FMTS[i%3]))
    # every kind of request against every kind of stored variable
    for fmt in FMTS:
        vals=[("string",text(b"hello")),("string",text(b"")),("string",text(b"x")),("scalar",rnum(r,"f64",[1],True)),("list",rnum(r,"f64",[3])),("list",rnum(r,"i32",[2])),("list",rnum(r,"i64",[2])),("list",rnum(r,"u32",[2])),("list",rnum(r,"u64",[2])),("list",rnum(r,"f64",[0])),
              ("mat",rnum(r,"f64",[2,3])),("mat",rnum(r,"f64",[3,2])),("mat",rnum(r,"f64",[2,2])),("mat",rnum(r,"f64",[3,1])),("mat",rnum(r,"f64",[1,3])),("mat",rnum(r,"i32",[2,2])),("mat",rnum(r,"u64",[2,2],True)),("mat",rnum(r,"i64",[1,1],True))]
        if fmt!="sdt": vals+= [("multi",rnum(r,t,d,True)) for t,d in(("f64",[2,2,2]),("i32",[1,1,1]),("u32",[2,1,2,1,2]),("f64",[4]),("i64",[1,1,1,1,1,1]))]
        for how,v in vals:
            base=[op_open(1,1,fmt,"w"),write(r,1,["v"],how,v),write(r,1,["w"],"list",rnum(r,"f64",[2],True)),{"op":"attr","h":1,"ds":["v"],"an":"s","val":rnum(r,"f64",[1])},{"op":"attr","h":1,"ds":["v"],"an":"t","val":text(b"a text attribute longer than eight")},{"op":"attr","h":1,"ds":["w"],"an":"e","val":text(b"")},{"op":"close","h":1},{"op":"del","h":1},op_open(1,1,fmt,"r")]
            probes=[{"op":"get","h":1,"name":[n],"how":q} for n in("v","zz","w_zz","") for q in ALLHOW if n or fmt=="sdt"]
            probes+= [{"op":"getattr","h":1,"ds":[d],"an":a,"how":q} for d in("v","w","zz") for a in("s","t","e","zz") for q in("scalar","string")]
            probes+= [{"op":"getmulti","h":1,"name":[n],"max":m,"how":q} for n in("v","zz") for m in(1,2,3,6) for q in("linear","pointer")]
            probes+= [{"op":"type","h":1,"name":[n],"hint":q} for n in("v","zz") for q in("undef","f64","i32","i64","u32","u64","text")]+[{"op":"has","h":1,"name":[n]} for n in("v","zz","v_s","s")]
            good=[{"op":"get","h":1,"name":["w"],"how":"list"}]+reads(r,1,["v"],v,False)
            r.shuffle(probes)
            out=[]
            for k,p in enumerate(probes):
                out.append(p)
                if k%7==3: out+=good
            for k in range(0,len(out),40): cases.append({"ops":base+out[k:k+40]+good})
    # variables of every shape whose names are those of attributes in formats that keep attributes as variables
    for i in range(ctx.n(60,600)):
        fmt=FMTS[i%3]
        comp=[("l","list",rnum(r,"f64",[r.randint(2,5)])),("c","mat",rnum(r,"f64",[r.randint(2,4),1])),("m","mat",rnum(r,"f64",[2,r.randint(2,3)])),("o","list",rnum(r,"f64",[1])),("z","list",rnum(r,"f64",[0])),("i","mat",rnum(r,r.choice(["i32","u64"]),[1,r.randint(1,3)],True)),("t","string",rtext(r))]
        r.shuffle(comp)
        ops=[op_open(1,1,fmt,"w"),write(r,1,["v"],"list",rnum(r,"f64",[2]))]+[write(r,1,["v_"+a],how,x) for a,how,x in comp]+[{"op":"close","h":1},{"op":"del","h":1},op_open(1,1,fmt,"r")]
        pr=[{"op":"getattr","h":1,"ds":["v"],"an":a,"how":q} for a,_,_ in comp for q in("scalar","string")]+[{"op":"get","h":1,"name":["v_"+a],"how":q} for a,_,_ in comp for q in("scalar","list","string")]
        r.shuffle(pr); cases.append({"ops":ops+pr})
    for i in range(ctx.n(120,1000)):
        fmt=r.choice(FMTS); n=r.choice([1,7,8,64,512,600,2048])   # (HDF5 takes an empty file for an empty data file when updating)
        g=bytes(r.choice([65,10,32,0,255,r.randint(0,255)]) for _ in range(n))
        if fmt=="sdt": g=r.choice([b"hello\n",b"@matrix\n",b"@matrix a\n",b"@matrix a 1\n",b"@matrix a x y\n1 2\n",b"@matrix a 1 2\n1\n",b"@matrix a 2 1\n1\n",b"@matrix a 1 1\nfoo\n",b"@matrix a 1 1\n1x\n",b"@string\n",b"@string s\n",b"@string s x\n1 2\n",b"1 2 3\n",b"@matrix a 1 1\n1\nfoo 2\n",b"@Matrix a 1 1\n1\n",b"@matrix a 1 1\n\n",b"matrix a 1 1\n1\n",b"@matrix a -1 1\n"[:0]+b"@matrix a b c\n"])
        ops=[{"op":"raw","f":1,"fmt":fmt,"text":list(g)},op_open(1,1,fmt,"r",via=r.choice(["create","typed","object"]))]
        if r.random()<.5: ops+=[op_open(1,1,fmt,"u",via="object")]
        ops+=[op_open(1,1,fmt,"w"),write(r,1,["a"],"list",rnum(r,"f64",[2])),{"op":"close","h":1},op_open(1,1,fmt,"r",via="reopen"),{"op":"get","h":1,"name":["a"],"how":"list"}]
        cases.append({"ops":ops})
    exts=["h5","hdf5","mat","sdt","out","H5","txt","","h5x","xh5","hdf","ma","matx","sd","outx","png","nc","hdf5 "]
    for e in exts+[gen.word(r,1,4,"hdf5matsout") for _ in range(30)]:
        for stem in("f","a.b","a.h5","dir.mat/x",""): cases.append({"ops":[{"op":"ftype","file":stem+"."+e,"ext":e}]+([{"op":"unsup","file":"q."+e,"how":"ext"}] if e not in("h5","hdf5","mat","sdt","out") and "/" not in e else [{"op":"unsup","file":"q."+e,"how":"type"}])})
    for e in("noext","h5","mat","sdt"): cases.append({"ops":[{"op":"ftype","file":e,"ext":""},{"op":"unsup","file":e,"how":"ext"}]})
    for e,f in(("hdf5","h5"),("out","sdt")):
        cases.append({"ops":[op_open(1,1,f,"w",ext=e),write(r,1,["a"],"list",rnum(r,"f64",[2])),{"op":"close","h":1},op_open(2,1,f,"r",ext=e),{"op":"get","h":2,"name":["a"],"how":"list"}]})
    run(ctx,cases,"absent and unsuitable data")
def check_S05(ctx):
    r=ctx.rng; cases=[c for c in modelled(ctx,200) ]
    for i in range(ctx.n(500,6000)):
        fmt=FMTS[1+i%2]; cases.append(hist(r,r.choice([12,25,40]),dict(attr=5,multi=5,struct=3,getattr=4,getmulti=4,write=3,bad=.2,open=1.5),fmt))
    for fmt in("h5","mat"):
        for nd in range(1,7):
            for t in TYS:
                for _ in range(ctx.n(2,12)):
                    d=[r.randint(1,4) for _ in range(nd)]
                    if r.random()<.15: d[r.randrange(nd)]=0
                    elif r.random()<.2: d[r.randrange(nd)]=r.choice([17,33])
                    v=rnum(r,t,d); p=r.choice([["m"],["g","m"],["g","h","m"]])
                    if 0 in d: v["e"]=[]
                    ops=[op_open(1,1,fmt,"w")]+[{"op":"struct","h":1,"name":p[:i]} for i in range(1,len(p))]+[write(r,1,p,"multi",v),write(r,1,["other"],"list",rnum(r,"f64",[3])),{"op":"attr","h":1,"ds":p,"an":"u","val":rtext(r)},{"op":"attr","h":1,"ds":p,"an":"n","val":rnum(r,"f64",[1])},{"op":"close","h":1},{"op":"del","h":1},op_open(1,1,fmt,"r"),{"op":"type","h":1,"name":p,"hint":"undef"}]
                    ops+=[{"op":"getmulti","h":1,"name":p,"max":m,"how":h} for m in(nd,6,max(nd-1,1)) for h in("linear","pointer")]+[{"op":"getattr","h":1,"ds":p,"an":a,"how":h} for a,h in(("u","string"),("n","scalar"))]+[{"op":"get","h":1,"name":["other"],"how":"list"}]
                    if nd<=2: ops+=reads(r,1,p,v)
                    cases.append({"ops":ops})
    for n in gen.sizes(ctx.n(150,300)):
        fmt=r.choice(["h5","mat"])
        cases.append({"ops":[op_open(1,1,fmt,"w"),write(r,1,["v"],"list",rnum(r,"f64",[2])),{"op":"attr","h":1,"ds":["v"],"an":"t","val":text([r.randint(1,255) for _ in range(n)])},{"op":"attr","h":1,"ds":["v"],"an":"s","val":rnum(r,"f64",[1])},{"op":"close","h":1},{"op":"del","h":1},op_open(1,1,fmt,"r"),{"op":"getattr","h":1,"ds":["v"],"an":"t","how":"string"},{"op":"getattr","h":1,"ds":["v"],"an":"s","how":"scalar"}]})
    for mon in range(12):
        for _ in range(3):
            ck=dict(wday=r.randint(0,6),mon=mon,mday=r.choice([1,9,10,28]),hour=r.choice([0,9,10,23]),min=r.choice([0,5,59]),sec=r.choice([0,7,59,60]),year=r.choice([70,99,100,126,8099]))
            cases.append({"ops":[op_open(1,1,"mat","w",clock=ck),{"op":"close","h":1},{"op":"header","f":1,"clock":ck},op_open(1,1,"mat","u",via="reopen"),write(r,1,["a"],"list",rnum(r,"f64",[2])),{"op":"close","h":1},{"op":"header","f":1,"clock":ck},{"op":"del","h":1},op_open(1,1,"mat","r"),{"op":"get","h":1,"name":["a"],"how":"list"}]})
    run(ctx,cases,"attributes, arrays, groups")

def with_dumps(r,ops,NF=3):
    """after every close and at the end: look at the files with an ordinary reader"""
    out=[]; op={}; ex=set()
    for o in ops:
        out.append(o); k=o["op"]
        if k=="open":
            op.pop(o["h"],None) if o.get("via")=="reopen" else None
            if o["dir"]=="ok" and (o["mode"]=="w" or o["f"] in ex):
                op[o["h"]]=o["f"]
                if o["mode"]=="w": ex.add(o["f"])
        elif k in("close","del"): 
            f=op.pop(o["h"],None)
            if f and f not in op.values() and r.random()<.7: out.append({"op":"dump","f":f})
        elif k in("raw",): ex.discard(o["f"])
        elif k=="byhand": ex.add(o["f"])
    for h in list(op): out+=[{"op":"close","h":h}]
    out+=[{"op":"dump","f":f} for f in sorted(ex)]
    return out
def check_S06(ctx):
    r=ctx.rng; cases=[]
    for c in modelled(ctx,400): cases.append({"ops":with_dumps(r,c["ops"])})
    for i in range(ctx.n(600,8000)):
        c=roundtrip(r,FMTS[i%3],r.choice([1,2,5,8])); k=[j for j,o in enumerate(c["ops"]) if o["op"]=="del"][0]
        cases.append({"ops":with_dumps(r,c["ops"][:k+1])})
    for i in range(ctx.n(500,6000)): cases.append({"ops":with_dumps(r,hist(r,r.choice([12,25]),dict(attr=4,multi=4,struct=3,write=6,get=.2,has=.1,type=.1,bad=.1,open=3,close=2),FMTS[i%3])["ops"])})
    for f in FMTS:
        for t in TYS:
            for d in ([1,1],[1,2],[2,1],[2,2],[3,4],[7,5]):
                for how in("mat","matov"): cases.append({"ops":with_dumps(r,[op_open(1,1,f,"w"),write(r,1,["a"],how,rnum(r,t,d)),write(r,1,["b"],"listov",rnum(r,t,[d[1]])),{"op":"attr","h":1,"ds":["a"],"an":"s","val":rnum(r,"f64",[1])},{"op":"attr","h":1,"ds":["b"],"an":"t","val":rtext(r)},{"op":"close","h":1}])})
        for k in range(0,255,51): cases.append({"ops":with_dumps(r,[op_open(1,1,f,"w"),write(r,1,["a"],"string",text(range(k+1,k+52))),write(r,1,["m"],"image",rnum(r,"f64",[3,3])),write(r,1,["z"],"scalar",rnum(r,"f64",[1])),{"op":"close","h":1}])})
    if not any(o["op"]=="dump" for c in cases for o in c["ops"]): raise CheckError("nothing looked at")
    b=build(ctx,"h_sfile"); res=conformance(ctx,b,"TSFile",cases,name="files seen by an ordinary reader",chunk=1500)
    ctx.extra["files_read_independently"]=sum(1 for v in res.values() for e in (v or []) if e["op"]=="dump")
    def bad(ev):
        for e in reversed(ev):
            if e["op"]=="dump" and e["res"]["k"]=="ok":
                for x in e["res"]["o"]:
                    if x["k"]=="data": x["name"][-1]+="q"; return ev
    binding_demo(ctx,"TSFile",[(c["id"],res[c["id"]]) for c in cases[:400] if res.get(c["id"])],bad)
    ctx.assumptions+=["one-dimensional lists of MATLAB files may carry no class label","text holds no NUL; names have no blanks"]
