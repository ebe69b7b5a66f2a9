"""V01, V02: vectors and matrices."""
from core import *
import math
VB=["set","fill","fillel","copy","construct","convert","zero","addeq","subeq","addeqs","subeqs","muleqs","diveqs","addeqel","subeqel","muleqel","diveqel","neg","add","sub","adds","sadd","subs","ssub","muls","smul","divs","dot","norm","normalize","array","size","cross"]
LIM=1000
def quo(a,s): return a//s if s>0 else (-a)//(-s)
def vprog(r,N,n,ty,aliasing=.35):
    v=[[0]*N for _ in range(4)]; ops=[]; tries=0
    while len(ops)<n and tries<20*n+200:
        tries+=1
        op=r.choice(VB) if len(ops)>3 else "set"; d,a,b=r.randrange(4),r.randrange(4),r.randrange(4)
        if r.random()<aliasing: a=d
        if r.random()<aliasing/2: b=a
        i=r.randrange(N); s=r.choice([0,1,-1,2,-2,3,7,r.randint(-20,20)]); o={"op":op,"d":d,"a":a,"b":b,"i":i,"s":s}
        A,B,W,el=v[a],v[b],v[d],v[a][i]; X=None
        if op=="set": X=[r.choice([0,1,-1,2,3,5,-7,r.randint(-50,50)]) for _ in range(N)]; o["x"]=X; o["how"]=r.choice(["assign","index","ctor"])
        elif op=="fill": X=[s]*N
        elif op=="fillel": X=[el]*N
        elif op in("copy","construct","convert"): X=list(A)
        elif op=="zero": X=[0]*N
        elif op=="addeq": X=[x+y for x,y in zip(W,A)]
        elif op=="subeq": X=[x-y for x,y in zip(W,A)]
        elif op=="addeqs": X=[x+s for x in W]
        elif op=="subeqs": X=[x-s for x in W]
        elif op=="muleqs": X=[x*s for x in W]
        elif op in("diveqs","diveqel","divs"):
            q=A if op=="divs" else W; k=el if op=="diveqel" else s
            if op!="diveqel":
                g=0
                for x in q: g=math.gcd(g,x)
                k=s=r.choice([z for z in range(-60,61) if z and g%z==0]) ; o["s"]=s
            if k==0 or any(x%k for x in q): continue
            X=[quo(x,k) for x in q]
        elif op=="addeqel": X=[x+el for x in W]
        elif op=="subeqel": X=[x-el for x in W]
        elif op=="muleqel": X=[x*el for x in W]
        elif op=="neg": X=[-x for x in A]
        elif op=="add": X=[x+y for x,y in zip(A,B)]
        elif op=="sub": X=[x-y for x,y in zip(A,B)]
        elif op in("adds","sadd"): X=[x+s for x in A]
        elif op=="subs": X=[x-s for x in A]
        elif op=="ssub": X=[s-x for x in A]
        elif op in("muls","smul"): X=[x*s for x in A]
        elif op=="cross":
            o["how"]=r.choice(["ref","ret"]) if N==3 else "ref"
            if N==3: X=[A[1]*B[2]-A[2]*B[1],A[2]*B[0]-A[0]*B[2],A[0]*B[1]-A[1]*B[0]]
        elif op=="normalize":
            if ty!="double": continue
            q=sum(x*x for x in A); m=math.isqrt(q)
            if m*m!=q or m==0: continue
            o["n"]=m
        if X is not None:
            if max(map(abs,X))>LIM: continue
            v[d]=X
        ops.append(o)
    return ops
MB=["seta","seta","setb","setx","sety","copy","construct","zero","addeq","subeq","addeqs","subeqs","muleqs","addeqel","muleqel","neg","add","sub","adds","sadd","subs","ssub","muls","smul","mul","mul","muleq","mx","ym","outer","size"]
def mprog(r,M,N,K,n):
    A=[[0]*(M*N) for _ in range(3)]; B=[[0]*(N*K) for _ in range(2)]; x=[[0]*N for _ in range(2)]; y=[[0]*M for _ in range(2)]; ops=[]; t=0
    def rn(k): return [r.choice([0,1,-1,2,3,-4,r.randint(-9,9)]) for _ in range(k)]
    while len(ops)<n and t<20*n:
        t+=1; op=r.choice(MB) if len(ops)>5 else ["seta","seta","setb","setx","sety","seta"][len(ops)]
        d,a,b=r.randrange(3),r.randrange(3),r.randrange(3)
        if r.random()<.35: a=d
        s=r.choice([0,1,-1,2,3,r.randint(-9,9)]); o={"op":op,"d":d,"a":a,"b":b,"s":s}; X=None
        if op=="seta": X=rn(M*N); o["x"]=X; o["how"]=r.choice(["rows","index","lin","ctor"])
        elif op=="setb": o["d"]=d%2; o["x"]=rn(N*K); B[d%2]=o["x"]
        elif op=="setx": o["d"]=d%2; o["x"]=rn(N); x[d%2]=o["x"]
        elif op=="sety": o["d"]=d%2; o["x"]=rn(M); y[d%2]=o["x"]
        elif op in("copy","construct"): X=list(A[a])
        elif op=="zero": X=[0]*(M*N)
        elif op=="addeq": X=[p+q for p,q in zip(A[d],A[a])]
        elif op=="subeq": X=[p-q for p,q in zip(A[d],A[a])]
        elif op=="addeqs": X=[p+s for p in A[d]]
        elif op=="subeqs": X=[p-s for p in A[d]]
        elif op=="muleqs": X=[p*s for p in A[d]]
        elif op in("addeqel","muleqel"):
            i=r.randrange(M*N); o["i"]=i; e=A[a][i]; X=[p+e if op=="addeqel" else p*e for p in A[d]]
        elif op=="neg": X=[-p for p in A[a]]
        elif op=="add": X=[p+q for p,q in zip(A[a],A[b])]
        elif op=="sub": X=[p-q for p,q in zip(A[a],A[b])]
        elif op in("adds","sadd"): X=[p+s for p in A[a]]
        elif op=="subs": X=[p-s for p in A[a]]
        elif op=="ssub": X=[s-p for p in A[a]]
        elif op in("muls","smul"): X=[p*s for p in A[a]]
        elif op=="mul": o["b"]=b%2
        elif op=="muleq":
            if M==N: X=[sum(A[d][i*N+k]*A[a][k*N+j] for k in range(N)) for i in range(N) for j in range(N)]
        elif op=="mx":
            o["d"],o["b"]=d%2,b%2; z=[sum(A[a][i*N+j]*x[b%2][j] for j in range(N)) for i in range(M)]
            if max(map(abs,z))>LIM: continue
            y[d%2]=z
        elif op=="ym":
            o["d"],o["b"]=d%2,b%2; z=[sum(A[a][i*N+j]*y[b%2][i] for i in range(M)) for j in range(N)]
            if max(map(abs,z))>LIM: continue
            x[d%2]=z
        elif op=="outer": o["a"],o["b"]=a%2,b%2; X=[p*q for p in y[a%2] for q in x[b%2]]
        if X is not None:
            if max(map(abs,X))>LIM: continue
            A[d]=X
        ops.append(o)
    return ops
def begin(c,ev):
    s=c["shape"].split("x")
    b={"op":"begin","kind":"v","M":1,"N":int(s[0]),"K":1} if len(s)==1 else {"op":"begin","kind":"m","M":int(s[0]),"N":int(s[1]),"K":int(s[2])}
    return [b]+ev
def corrupt(ev):
    e=ev[-1]; g=e["regs"]
    if isinstance(g,dict): g["A"][0][0][0]=(g["A"][0][0][0] if isinstance(g["A"][0][0][0],int) else 0)+1
    else: g[0][0]=(g[0][0] if isinstance(g[0][0],int) else 0)+1
    return ev
def go(ctx,kind):
    cfg="SPECIFICATION Spec\nCONSTANT E = {%s}\nCONSTANT Kind = \"%s\"\nINVARIANTS VLaws MLaws\nCHECK_DEADLOCK FALSE\n"
    model_check(ctx,"MCAlgebra",cfg%(("0,1,2,3,5" if kind=="v" else "0,1,2") if ctx.quick else ("0,1,2,3,4,5,7" if kind=="v" else "0,1,2,3"),kind),what="the laws of the algebra over all small operands")
    b=build(ctx,"h_algebra"); r=ctx.rng; cases=[]
    if kind=="v":
        # every operation, each aliasing pattern, in every dimension
        for ty in ("double","int"):
            for N in (1,2,3,4,6):
                for _ in range(ctx.n(60,700)): cases.append({"ty":ty,"shape":str(N),"ops":vprog(r,N,r.choice([8,20,40]),ty)})
                if ty=="double":
                    for _ in range(ctx.n(10,60)):   # division, exactly
                        ops=[]
                        for k in range(1,50):
                            m=r.randint(1,20); ops+=[{"op":"set","d":0,"a":0,"b":0,"i":0,"s":0,"x":[k*r.randint(-m,m) for _ in range(N)],"how":"ctor"},{"op":r.choice(["diveqs"]),"d":0,"a":0,"b":0,"i":0,"s":k}]
                        cases.append({"ty":ty,"shape":str(N),"ops":ops})
    else:
        for ty in ("double","int"):
            for sh in ((1,1,1),(2,2,2),(3,3,3),(2,3,1),(3,2,4),(1,3,2),(4,1,3),(4,4,2)):
                for _ in range(ctx.n(50,600)): cases.append({"ty":ty,"shape":"%dx%dx%d"%sh,"ops":mprog(r,*sh,r.choice([10,25,40]))})
    res=conformance(ctx,b,"TAlgebra",cases,name="programs",project=begin,chunk=3000)
    binding_demo(ctx,"TAlgebra",[(c["id"],begin(c,res[c["id"]])) for c in cases[:60] if res.get(c["id"])],corrupt)
    ctx.assumptions=["integer element values up to %d, as double and int"%LIM]
    return finish(ctx)
def check_V01(ctx): return go(ctx,"v")
def check_V02(ctx): return go(ctx,"m")
