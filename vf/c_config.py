"""C01-C09: configuration scripts, blocks and settings."""
import json
from core import *
import gen
TYPES0=["/root"]
def enc(s): return list(s) if isinstance(s,bytes) else list(s.encode("latin-1"))
def load(script,types,files=(),route="string",fname=None):
    o={"op":"load","route":route,"types":[enc(x) for x in types],"script":enc(script),
       "files":[{"n":enc(n),"c":enc(c)} for n,c in files],"self":[enc(fname)] if fname else []}
    if fname: o["fname"]=enc(fname)
    return {"ops":[o]}
SPECIAL=' \t\n,="<>#(){};'
# ---- random trees -> token lists -> text
def rname(r,types,plain=False):
    while True:
        k=r.random()
        if k<0.5: w=gen.word(r,1,6,"abcdefghxyz0123456789_")
        elif k<0.7: w=gen.word(r,1,12)
        elif k<0.8: w=r.choice([x for x in gen.dictionary()["strs"] if x and '"' not in x and '\\' not in x and x.isprintable() and x.isascii()])
        elif k<0.85: w=gen.word(r,20,60)
        else: w=r.choice(["a","b","c","root","@","name","type","yes","{","=","a b","x=y","#no","1e3","-5","true"])
        if plain and any(c in SPECIAL for c in w): continue
        if w in types: continue
        return w
def rvalue(r,types):
    k=r.random()
    if k<0.30: return str(r.choice([0,1,-1,r.randint(-10**6,10**6),r.choice(gen.dictionary()["ints"])]))
    if k<0.45: return repr(r.uniform(-1e3,1e3))
    if k<0.60: return rname(r,[])
    if k<0.66: return r.choice(list(types))           # a block-type name used as a value
    if k<0.80: return gen.word(r,0,10,gen.WORDCH+SPECIAL.replace('"',''))
    if k<0.85: return gen.word(r,0,5,"\x80\xe5\xff\x01\r\x7f\\\'")
    if k<0.90: return gen.word(r,50,r.choice([100,300]))
    return r.choice(["","=","{","}",";","(",")","#"," ","\n","<f>","a,b","//","yes","No"])
def rtree(r,types,depth,budget):
    """statements as token list; tokens: ('w',text) or ('p',char)"""
    out=[]; n=r.choice([0,1,2,3,r.randint(0,8)])
    names=[]; blocks=[]
    for _ in range(n):
        if budget[0]<=0: break
        budget[0]-=1
        if depth>0 and len(types)>1 and r.random()<0.35:
            ty=r.choice(types[1:])
            if blocks and r.random()<0.3: ty,nm,sec=r.choice(blocks)
            else:
                nm=r.choice(types) if r.random()<0.05 else rname(r,[])
                sec=None
                if r.random()<0.4: sec=rname(r,types)
                blocks.append((ty,nm,sec))
            out+= [("w",ty),("w",nm)]
            if sec is not None: out+=[("p","("),("w",sec),("p",")")]
            out.append(("p","{")); out+=rtree(r,types,depth-1,budget); out.append(("p","}"))
        else:
            nm=r.choice(names) if names and r.random()<0.25 else rname(r,types)
            names.append(nm)
            nv=r.choice([1,1,1,2,3,r.randint(1,10)])
            out+=[("w",nm),("p","=")]+[("w",rvalue(r,types)) for _ in range(nv)]+[("p",";")]
    return out
SEPS=[" ","\n","\t","  ","\n\n"," \t\n",",",", "," , ",",,","#c\n"," # a=b; {\n","#\n","#\"\n","\n#<x>\n#}\n\t","#\r x=1;\n","#a\\\n","#\xe5\x0b\x0c}=\n","##\n","#'\n"]
def render(r,toks,style=None):
    style=style if style is not None else r.choice([0,1,2,3])
    out=[]; prev=None
    for k,v in toks:
        if k=="p": txt=v; q=False
        else:
            q=v=="" or any(c in SPECIAL for c in v) or (style>=2 and r.random()<0.3)
            txt='"'+v+'"' if q else v
        if prev is not None:
            need=prev=="w" and k=="w" and not q
            if style==0: sep=" " if need else ""
            elif style==1: sep=" "
            else:
                sep="".join(r.choice(SEPS) for _ in range(r.randint(0,3 if style==3 else 1)))
            if need and sep=="": sep=r.choice(SEPS)
        else: sep="" if style<2 else r.choice(["","\n"," ","#head\n","# a = b;\n\n"])
        out.append(sep); out.append(txt); prev="w" if (k=="w" and not q) else "x"
    out.append("" if style==0 else r.choice(["","\n"," ","#end","# x=y;","#","\n#\n",",","\t"]))
    return "".join(out)
def rtypes(r):
    n=r.choice([0,1,2,2,3,5]); t=list(TYPES0)
    while len(t)<=n:
        w=r.choice(["@Block","@B","Type","geo","@"+gen.word(r,1,6,"abcXYZ"),gen.word(r,1,8,"abcdefgh")])
        if w not in t: t.append(w)
    return t
def big_scripts(r,quick):
    """long scripts: many settings, many values, long words, deep nesting, many blocks"""
    out=[]
    for n in gen.sizes(300 if quick else 700):
        if quick and n>40 and r.random()<0.6 and n not in (100,255,256,257): continue
        out.append([("w","v"),("p","=")]+[("w",str(i)) for i in range(max(n,1))]+[("p",";")])
        if n%3==0 or not quick: out.append(sum([[("w","s%d"%i),("p","="),("w","x"),("p",";")] for i in range(n)],[]))
        if n<=100 and (n%2==0 or not quick): out.append(sum([[("w","@B"),("w","n%d"%i),("p","{")] for i in range(n)],[])+[("w","z"),("p","="),("w","1"),("p",";")]+[("p","}")]*n)
        if n<=130 and (n%2==1 or not quick): out.append(sum([[("w","@B"),("w","n%d"%i),("p","{"),("w","q"),("p","="),("w","%d"%i),("p",";"),("p","}")] for i in range(n)],[]))
        out.append([("w","n"*max(n,1)),("p","="),("w","k"*n),("w","l"+" m"*n),("p",";")])
        if n<=130 and n%2==0:       # many blocks, every third opened again
            bl=lambda i,v:[("w","@B"),("w","n%d"%i),("p","{"),("w","q%d"%(i%2) if v else "q0"),("p","="),("w","%d"%(i+v)),("p",";"),("p","}")]
            out.append(sum([bl(i,0) for i in range(n)],[])+sum([bl(i,1000) for i in range(0,n,3)],[]))
            out.append(sum([[("w","s%d"%i),("p","="),("w","x%d"%i),("p",";")] for i in list(range(n))+list(range(0,n,3))],[]))
    for n in gen.large(300,9000):
        out.append([("w","a"*n),("p","="),("w","b"*n),("p",";"),("w","c"),("p","="),("w","d e"*(n//3)+"f"*(n%3)),("p",";")])
        out.append([("w","@B"),("w","e"*n),("p","{"),("w","c"),("p","="),("w","1"),("p",";"),("p","}")])
    return out
def model(ctx):
    m=ctx.n(7,9)
    cfg=open(os.path.join(SPEC,"MCConfigLang.cfg")).read().replace("MaxLen = 7","MaxLen = %d"%m)
    r=model_check(ctx,"MCConfigLang",cfg+"\n",what="all token strings viable up to length %d plus one arbitrary token; layout independence, splicing, tree well-formedness"%(m-1))
    ch={97:("w","a"),98:("w","bb"),64:("w","@T")}
    toks=[[ch[c] if c in ch else ("p",chr(c)) for c in e] for e in r["emits"]]
    return toks
MT=["/root","@T"]
CORRUPT_NOTE="each listed trace with one recorded field altered is rejected"
def corrupt_load(ev):
    e=ev[0]
    if e.get("op")!="load" or e["res"]["exc"]!="none" or e["res"]["err"]: return None
    e["res"]["tree"]["sets"].append({"n":[122,122,122],"v":[[49]]}); return ev
def demo(ctx,res):
    binding_demo(ctx,"TConfigLang",[(i,ev) for i,ev in traces_of(res,200) if ev],corrupt_load)

def check_C01(ctx):
    b=build(ctx,"h_config"); r=ctx.rng
    toks=model(ctx); cases=[]
    routes=["string","string","file","stdin"]
    for t in toks:                                    # spec -> code: everything the model explored
        cases.append(load(render(r,t),MT,route=r.choice(routes)))
    for _ in range(ctx.n(2500,20000)):
        ty=rtypes(r); t=rtree(r,ty,r.choice([0,1,2,3,6]),[r.choice([3,10,25])])
        cases.append(load(render(r,t),ty,route=r.choice(routes)))
    for t in big_scripts(r,ctx.quick):
        cases.append(load(render(r,t),["/root","@B"],route=r.choice(routes)))
    for n in (999,1000,1001,1999,2000,2001,4096):      # standard input is read in chunks
        for rt in ("stdin","file"):
            s="a=1;"; s+="#"+"c"*(n-len(s)-1-5)+"\nb=2;"; cases.append(load(s,MT,route=rt))
    # the same object loaded repeatedly is replaced by the last script
    res=conformance(ctx,b,"TConfigLang",cases,name="well-formed scripts")
    demo(ctx,res)
    ctx.assumptions+=["byte 0 never occurs in a script","carriage return is an ordinary character"]
def check_C02(ctx):
    b=build(ctx,"h_config"); r=ctx.rng
    toks=model(ctx); cases=[]
    for t in toks: cases.append(load(render(r,t,r.choice([0,1,2])),MT))
    # all texts over a small alphabet
    import itertools
    alpha='aT=;{}()"#\n <>'
    for n in range(0,ctx.n(3,4)+1):
        for s in itertools.product(alpha,repeat=n): cases.append(load("".join(s),["/root","T"]))
    for _ in range(ctx.n(6000,0)):
        cases.append(load("".join(r.choice(alpha) for _ in range(r.randint(4,12))),["/root","T"]))
    # mutations of well-formed scripts: token and character level
    P=[("p",c) for c in "=;(){}"]
    for _ in range(ctx.n(4000,30000)):
        ty=rtypes(r); t=rtree(r,ty,r.choice([0,1,2,4]),[r.choice([2,5,10])])
        if not t: continue
        k=r.random(); i=r.randrange(len(t))
        if k<0.2: t=t[:i]
        elif k<0.4: t=t[:i]+t[i+1:]
        elif k<0.6: t=t[:i]+[r.choice(P+[("w",r.choice(ty)),("w","zz")])]+t[i:]
        elif k<0.8: t=t[:i]+[r.choice(P+[("w",r.choice(ty)),("w","zz")])]+t[i+1:]
        s=render(r,t)
        if k>=0.8 and s:
            j=r.randrange(len(s)); m=r.random()
            if m<0.4: s=s[:j]
            elif m<0.7: s=s[:j]+s[j+1:]
            else: s=s[:j]+r.choice('"<=;{}()#\n>a')+s[j:]
        cases.append(load(s,ty,route=r.choice(["string","file","stdin"])))
    # every truncation of a few scripts
    for _ in range(ctx.n(6,40)):
        ty=rtypes(r); s=render(r,rtree(r,ty,3,[8]))
        for j in range(min(len(s),400)): cases.append(load(s[:j],ty))
    # errors late in long or deep scripts
    for t in big_scripts(r,ctx.quick):
        for cut in (r.choice([("p","}"),("p","="),("w","zz")]),None):
            u=t+[cut] if cut else t[:-1]
            cases.append(load(render(r,u),["/root","@B"]))
    # missing and cyclic inclusions
    for _ in range(ctx.n(150,1500)):
        ty=["/root","@B"]; n=r.randint(1,5); fs=[]
        for i in range(n):
            tgt=r.choice(["inc%d"%r.randrange(n),"inc%d"%r.randrange(n),"missing",None])
            s=render(r,rtree(r,ty,1,[3])); 
            if tgt: s=s+"\n<%s>\n"%tgt+render(r,rtree(r,ty,1,[2]))
            fs.append(("inc%d"%i,s))
        cases.append(load("a=1;\n<inc0> b = 2;",ty,fs,route=r.choice(["string","file"])))
    for n in range(1,ctx.n(12,30)):                   # cycles of every length
        fs=[("inc%d"%i,"x%d=1;<inc%d>"%(i,(i+1)%n)) for i in range(n)]
        cases.append(load("<inc0>",["/root"],fs)); cases.append(load("<inc0>",["/root"],fs,route="file"))
    for s in ("a=1;<main0.cfg>","<main0.cfg>"): cases.append(load(s,["/root"],route="file",fname="main0.cfg"))
    res=conformance(ctx,b,"TConfigLang",cases,name="malformed scripts")
    demo(ctx,res)
    ctx.assumptions+=["byte 0 never occurs in a script"]
def check_C03(ctx):
    b=build(ctx,"h_config"); r=ctx.rng
    toks=model(ctx); cases=[]
    for t in toks:                                    # every explored script cut in two or three by inclusions
        i=r.randint(0,len(t)); j=r.randint(i,len(t))
        k=r.random()
        fs=[("f",render(r,t[i:j])),("g",render(r,t[j:])),("h",render(r,t[:i])+r.choice(SEPS)+"<f>"+r.choice(["","\n"])+render(r,t[j:]))]
        if k<0.4: s=render(r,t[:i])+r.choice(["","\n"," "])+"<f>"+r.choice(["","\n"," "])+render(r,t[j:])
        elif k<0.7: s=render(r,t[:i])+r.choice(["","\n"," "])+"<f><g>"
        else: s="<h>"
        cases.append(load(s,MT,fs))
    for _ in range(ctx.n(2500,15000)):
        ty=rtypes(r); n=r.randint(1,6); names=[r.choice(["inc%d","sub%d.cfg","x-%d","%d"])%i for i in range(n)]
        fs=[]
        for i in range(n):
            s=render(r,rtree(r,ty,r.choice([0,1,2]),[r.choice([0,2,5])]),r.choice([1,2,3]))
            parts=[s]
            for _ in range(r.choice([0,0,1,1,2,3])):
                if i+1<n:
                    parts.append("\n<%s>"%r.choice(names[i+1:])); parts.append(r.choice([""," ","\n","\t#c\n"])+render(r,rtree(r,ty,1,[2]),1)+"\n")
            fs.append((names[i],"".join(parts)))
        main=render(r,rtree(r,ty,1,[3]),1)+"\n<%s>\n"%names[0]+render(r,rtree(r,ty,2,[4]),1)
        if r.random()<0.3: main+="\n<%s>"%r.choice(names)+r.choice(["","\nlast = 1;"])
        if len(ty)>1 and r.random()<0.3: main="%s outer {\n<%s>\n}\n"%(ty[1],r.choice(names))+main
        cases.append(load(main,ty,fs,route=r.choice(["string","file","stdin"])))
    for _ in range(ctx.n(1000,8000)):                # longer scripts cut in two or three anywhere, nothing between text and inclusion
        ty=rtypes(r); t=rtree(r,ty,r.choice([0,1,2]),[r.choice([1,2,4])]); i=r.randint(0,len(t)); j=r.randint(i,len(t)); st=r.choice([0,0,2])
        cases.append(load(render(r,t[:i],st)+r.choice(["","","\n",","])+"<f>"+r.choice(["","","\n",","])+render(r,t[j:],st),ty,[("f",render(r,t[i:j],st))],route=r.choice(["string","file"])))
    for n in list(range(1,ctx.n(20,60)))+[ctx.n(40,120)]:   # chains of depth n, fans of width n
        fs=[("d%d"%i,"a%d=%d; <d%d> z%d=%d;"%(i,i,i+1,i,i)) for i in range(n)]+[("d%d"%n,"leaf=1;")]
        cases.append(load("s=1;<d0>e=1;",["/root"],fs))
        cases.append(load("".join("<d%d>"%n+" f%d=1;"%i for i in range(n)),["/root"],fs))
    res=conformance(ctx,b,"TConfigLang",cases,name="inclusions")
    demo(ctx,res)
    ctx.assumptions+=["inclusions stand where a statement may stand; file names contain no white space"]
from c_blocks import check_C05
from c_blocks import check_C06
from c_blocks import check_C07
from c_blocks import check_C08
LIMITS=[2**31-1,2**31,2**31+1,2**32-1,2**32,2**32+1,2**63-1,2**63,2**63+1,2**64-1,2**64,2**64+1,2**15,2**16,2**53,2**53+1,10**9,10**10,10**18,10**19,10**20,127,128,255,256]
def value_text(r):
    k=r.random()
    if k<0.2:
        v=r.choice(LIMITS); s=str(v); return r.choice(["","-","+","0","-0","000"])+s
    if k<0.35: return r.choice(["","-","+"])+"".join(r.choice("0123456789") for _ in range(r.randint(1,r.choice([3,12,24]))))
    if k<0.60:
        s=r.choice(["","-","+"])+"".join(r.choice("0123456789") for _ in range(r.randint(0,8)))+r.choice(["",".","."])+"".join(r.choice("0123456789") for _ in range(r.randint(0,7)))
        if r.random()<0.5: s+=r.choice("eE")+r.choice(["","-","+"])+str(r.choice([0,1,2,5,10,99,100,280,r.randint(0,320),999]))
        return s
    if k<0.72:
        b=r.choice(["yes","no","true","false"]); m=r.random()
        b=b if m<.3 else b.upper() if m<.5 else b.capitalize() if m<.7 else "".join(c.upper() if r.random()<.5 else c for c in b)
        return b if r.random()<0.6 else r.choice([b+" ",b[:-1],b+b[-1],"n"+b,b[0]])
    if k<0.80: return r.choice(["","on","off","0","1","-","+",".","e","e5","1e","1e+","0x10","inf","-inf","nan","Infinity","0b1","1_000","1,5","12abc","5 ","5\t"," 5","--5","+-5","1.2.3","1e5.0","1d5","1f","1.0f","1L","0.1e-1","00","-0","+0","007","1e400","-1e400","1e-400","4.9e-324"])
    s=value_text(r); 
    if not s: return s
    i=r.randrange(len(s)+1); return s[:i]+r.choice("0123456789+-.eE xyn")+s[i+r.choice([0,1]):]
def check_C04(ctx):
    b=build(ctx,"h_values"); r=ctx.rng; m=ctx.n(4,5)
    q=model_check(ctx,"MCConfigValues","SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n"%m,what="all texts over {0,1,9,+,-,.,e} up to length %d"%m)
    cases=[]; hows=["vec","append","copy"]
    def add(vals): cases.append({"ops":[{"op":"setting","how":r.choice(hows),"vals":[enc(v) if isinstance(v,str) else v for v in vals]}]})
    for t in q["emits"]: add([t])
    for v in LIMITS:
        for d in (-1,0,1):
            for sg in ("","-","+","0","-00"): add([sg+str(v+d)])
    for _ in range(ctx.n(3000,30000)): add([value_text(r)])
    for _ in range(ctx.n(1500,15000)):
        n=r.choice([2,2,3,4,r.randint(1,12)])
        if r.random()<.5: add([r.choice(["1","2.5","-3e2",str(r.randint(-10**6,10**6))]) for _ in range(n-1)]+[value_text(r)])
        elif r.random()<.5:
            l=[str(r.randint(-99,99)) for _ in range(n)]; l[r.randrange(n)]=value_text(r); add(l)
        else: add([value_text(r) for _ in range(n)])
    for n in gen.sizes(ctx.n(130,300)):
        if n: add([str(i) for i in range(n)])
    res=conformance(ctx,b,"TConfigValues",cases,name="typed reads")
    def corrupt(ev):
        ev[0]["res"]["p"][-1]["s"]["t"]=[33,33]; return ev
    binding_demo(ctx,"TConfigValues",[(i,ev) for i,ev in traces_of(res,200) if ev],corrupt)
    ctx.assumptions+=["numbers with more than fifteen significant digits or exponents beyond +-300 are checked for consistency only","leading white space, hexadecimal and non-finite names: either answer, if consistent"]
def typed_vals(r,ty,n):
    def one():
        if ty=="bool": return r.choice(["true","false"])
        if ty=="str": return r.choice(["","abc","1","2.5","yes"," x","w"*20,gen.word(r,0,6)])
        if ty=="real":
            k=r.random()
            if k<.3: return str(r.randint(-10**6,10**6))
            if k<.6: return repr(round(r.uniform(-1000,1000),3))
            if k<.8: return r.choice(["0","-0","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","1e15","-1e15","0.5","-0.5","1e-5","9007199254740992"[:15],"9223372036854775808","9223372036854774784","-9223372036854775808","-9223372036854777856","18446744073709551616","9007199254740992","-9007199254740994","4294967295.5"])
            return "%de%d"%(r.randint(-999,999),r.randint(-20,14))
        lo,hi={"i32":(-2**31,2**31-1),"i64":(-2**63,2**63-1),"u32":(0,2**32-1),"u64":(0,2**64-1)}[ty]
        c=[x for b in (0,2**31,2**32,2**63,2**64,-2**31,-2**63,2**15) for x in (b-1,b,b+1) if lo<=x<=hi]
        return str(r.choice(c) if r.random()<.6 else r.randint(max(lo,-10**9),min(hi,10**9)) if r.random()<.5 else r.randint(lo,hi))
    return [enc(one()) for _ in range(n)]
def check_C09(ctx):
    b=build(ctx,"h_typed"); r=ctx.rng
    q=model_check(ctx,"MCTypedSettings",what="two settings, boundary values of every type, all histories of two calls (one per distinct state)")
    cases=[{"ops":e} for e in q["emits"]]
    if ctx.quick: cases=[c for c in cases if len(c["ops"])<2]+r.sample([c for c in cases if len(c["ops"])==2],800)
    TY=["bool","i32","i64","u32","u64","real","str"]
    SC=lambda:[enc(x) for x in r.choice([[r.choice(["yes","No","TRUE"])],[str(r.choice(LIMITS)) if r.random()<.7 else "-"+str(r.choice(LIMITS[:12]))],[repr(round(r.uniform(-9,9),2))],[str(r.randint(-9,9)) for _ in range(r.randint(2,5))],["1","x"],["yes","no"],["a b","","c"],[""]])]
    for _ in range(ctx.n(700,8000)):
        ops=[]; live=set()
        for _ in range(r.choice([3,6,12])):
            k=r.random(); dead=[x for x in (1,2,3) if x not in live]
            if not live or k<.45:
                s=r.choice((1,2,3)); ty=r.choice(TY); ops.append({"op":"set","s":s,"ty":ty,"vals":typed_vals(r,ty,r.choice([0,1,1,2,3,r.randint(1,9)]))}); live.add(s)
            elif k<.6: ops.append({"op":"over","s":r.choice(sorted(live)),"s2":r.choice(sorted(live))})
            elif k<.75 and dead: s=r.choice(dead); ops.append({"op":"copy","s":s,"s2":r.choice(sorted(live))}); live.add(s)
            elif k<.9:
                v=SC()
                if len(v)==1 and v[0] and not (bytes(v[0]).isalpha()) and len(v[0])>19: v=[enc("7")]
                ops.append({"op":"script","s":r.choice(sorted(live)),"vals":v})
            else: s=r.choice(sorted(live)); ops.append({"op":"destroy","s":s}); live.discard(s)
        cases.append({"ops":ops})
    for n in gen.sizes(ctx.n(70,260))+[257]:
        for ty in (TY if n<20 else ["str"] if n==257 else r.sample(TY,2)):
            cases.append({"ops":[{"op":"set","s":1,"ty":ty,"vals":typed_vals(r,ty,n)},{"op":"copy","s":2,"s2":1},{"op":"set","s":1,"ty":ty,"vals":typed_vals(r,ty,1)},{"op":"over","s":1,"s2":2},{"op":"destroy","s":2}]})
    res=conformance(ctx,b,"TTypedSettings",cases,name="typed settings")
    def corrupt(ev):
        for o in ev[-1]["obs"]:
            if o["live"]: o["n"]+=1; return ev
    binding_demo(ctx,"TTypedSettings",[(i,ev) for i,ev in traces_of(res,200) if ev],corrupt)
    ctx.assumptions+=["reals beyond the 64-bit integer range are not read as integers (no defined value)"]
def check_C10(ctx):
    b=build(ctx,"h_config"); r=ctx.rng; m=ctx.n(7,9)
    cfg=open(os.path.join(SPEC,"MCConfigErrors.cfg")).read().replace("MaxLen = 6","MaxLen = %d"%m)
    q=model_check(ctx,"MCConfigErrors",cfg,what="places of errors: all viable token strings to length %d plus one arbitrary token, in five layouts and as an included file"%(m-1))
    ch={97:("w","a"),98:("w","bb"),64:("w","@T")}
    cases=[]; routes=["string","file","stdin"]
    P=[("p",c) for c in "=;(){}"]
    def include(s,ty,deep=0):
        """the text s as an included file, inside other text; returns (main, files)"""
        pre=render(r,rtree(r,ty,0,[2]),r.choice([1,2,3]))+r.choice(["","\n","\n\n#<z>\n"])
        post=r.choice(["\n","",";"," "])+render(r,rtree(r,ty,0,[2]))
        fs=[("inc%d"%deep,s)]; main=pre+"\n<inc%d>"%deep+post
        if r.random()<.35 and deep<4:
            main,more=include(main,ty,deep+1); fs+=more
        return main,fs
    def add(s,ty,p=0.3):
        if r.random()<p:
            main,fs=include(s,ty); cases.append(load(main,ty,fs,route=r.choice(routes)))
        else: cases.append(load(s,ty,route=r.choice(routes)))
    for e in q["emits"]:
        t=[ch[c] if c in ch else ("p",chr(c)) for c in e]
        add(render(r,t,r.choice([1,2,3])),MT,0.15)
        if r.random()<.5: add("\n".join('"%s"'%v if k=="w" and r.random()<.2 else v for k,v in t)+r.choice(["","\n"]),MT,0.15)
    def spread(s):                                   # put line breaks into quoted text
        out=[]; inq=False
        for c in s:
            if c=='"': inq=not inq
            out.append("\n" if inq and c==" " and r.random()<.5 else c)
        return "".join(out)
    for _ in range(ctx.n(5000,40000)):
        ty=rtypes(r); t=rtree(r,ty,r.choice([0,1,2,4]),[r.choice([2,5,10,20])])
        if not t: continue
        k=r.random(); i=r.randrange(len(t))
        if k<0.15: t=t[:i]
        elif k<0.35: t=t[:i]+t[i+1:]
        elif k<0.55: t=t[:i]+[r.choice(P+[("w",r.choice(ty)),("w","zz"),("w","a\nb")])]+t[i:]
        elif k<0.75: t=t[:i]+[r.choice(P+[("w",r.choice(ty)),("w","zz"),("w","\n")])]+t[i+1:]
        s=render(r,t,r.choice([1,2,3,3]))
        if k>=0.75 and s:
            j=r.randrange(len(s)); z=r.random()
            if z<0.3: s=s[:j]
            elif z<0.5: s=s[:j]+s[j+1:]
            else: s=s[:j]+r.choice(['"','=',';','}','>','<nofile>','\n<nofile>\n','<'])+s[j:]
        if r.random()<.3: s=spread(s)
        add(s,ty)
    # errors after many lines, long lines, long comments, long quotations
    for n in gen.sizes(ctx.n(260,600))+gen.large(300,9000):
        if ctx.quick and n>40 and r.random()<.5: continue
        filler=[lambda:"\n"*n,lambda:"#c\n"*n,lambda:" \t\n"*n,lambda:'q="'+"\n"*n+'";',lambda:'q="'+"x\n"*n+'" z;',lambda:"a%d = 1;\n"*0+"".join("a%d = %d;\n"%(i,i) for i in range(min(n,700))),
                lambda:"#"+"c"*n+"\n",lambda:"w"*n+" = "+"v"*n+";\n",lambda:"a = "+"1\n"*min(n,2000)+";"]
        for f in r.sample(filler,ctx.n(3,9)):
            bad=r.choice(["a = ;","= 1;\n","b c","}","\nx = 1;\n}","@B n {\n",'"',"<none>","a\n=\n=\n1;","@B {}","(\n)"])
            add(f()+bad+r.choice(["","\nok = 1;","\n= ="]),["/root","@B"],0.2)
    # inclusions: missing, cyclic, several on a line
    for _ in range(ctx.n(300,3000)):
        ty=["/root","@B"]; n=r.randint(1,5); fs=[]
        for i in range(n):
            tgt=r.choice(["inc%d"%r.randrange(n),"inc%d"%min(i+1,n-1),"missing",None])
            s=render(r,rtree(r,ty,1,[3]),r.choice([1,2,3]))
            if r.random()<.2: s+=r.choice([" = ","\n}","\n;;"])
            if tgt: s=s+"\n<%s>\n"%tgt+render(r,rtree(r,ty,1,[2]))
            fs.append(("inc%d"%i,s))
        cases.append(load(r.choice(["a=1;\n","\n\n",""])+"<inc0>"+r.choice([" ","\n"])+"b = 2;"+r.choice(["","\n}","x"]),ty,fs,route=r.choice(routes)))
    for d in range(1,ctx.n(12,40)):                  # an error at depth d, after inclusions that returned
        fs=[("d%d"%i,"\n"*i+"<ok>\na%d=1;\n<d%d>\n z=1;"%(i,i+1)) for i in range(d)]+[("d%d"%d,"x=1;\n"*d+"="),("ok","o = 1;\n\n\np = 2;\n")]
        cases.append(load("<d0>",["/root"],fs)); cases.append(load("<ok>\n<ok>\n\n"+"<d1> y=2;" if d>1 else "<ok>\n=",["/root"],fs,route=r.choice(routes)))
        cases.append(load("k = 1;\n<ok> <ok>\n<ok>\n"+"\n"*d+"m = = 1;",["/root"],fs,route=r.choice(routes)))
    for s in ("a=1;\n<main0.cfg>","\n<main0.cfg>\n","}\n","b\n=\n<x>"): cases.append(load(s,["/root"],route="file",fname="main0.cfg"))
    res=conformance(ctx,b,"TConfigErrors",cases,name="places of errors")
    def corrupt(ev):
        e=ev[0]
        if e.get("op")!="load" or not e["res"]["rep"]["has"]: return None
        e["res"]["rep"]["line"]=0; return ev
    binding_demo(ctx,"TConfigErrors",[(i,ev) for i,ev in traces_of(res,120) if ev],corrupt)
    ctx.assumptions+=["only the first error reported and its line are specified, not the column or the message","inclusions stand where a statement may stand; names of included files contain no white space or '#'"]
