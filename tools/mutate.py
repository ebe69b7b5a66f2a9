"""Random textual mutants of the library; which survive all checks of their part? Run by hand; no check uses it.
usage: mutate.py VERIFCOPY REPOSRC WORKDIR LOG SEED PER_FILE [file-substring...]"""
import sys,os,re,random,subprocess,json,shutil,time
VW,SRC,W,LOG,SEED,PER=sys.argv[1:7]; pats=sys.argv[7:]
rng=random.Random(int(SEED)); PER=int(PER)
MAP=[("MagneticFieldLUKE","M03"),("AnalyticalAvalanche","A01"),("ConnorHastie","A01"),("ExponentialPitch","A01"),("Script/Lexer","C01 C02 C03 C10"),("Script/Interpreter","C01 C02 C03 C10"),("ConfigurationScript.cpp","C01 C02 C03"),("ConfigToken","C01 C02"),("SettingScript.cpp","C04 C07 C05"),("SettingSFile.cpp","C09"),
("ConfigBlock.cpp","C05 C06 C07 C08 C01"),("Configuration/Configuration.cpp","C07 C08 C05"),("Configuration/Setting.cpp","C06 C07 C08"),
("src/SFile/SFile.cpp","S01 S04 S05 S02"),("SFile_SDT.cpp","S01 S02 S04 S03"),("SFile_SDT.load","S01 S02 S04"),("SFile_HDF5.cpp","S01 S05 S04 S02 S03"),("SFile_MAT.HDF5","S01 S05 S04 S02"),
("MagneticField2D.cpp","D01 D02 D03 M01"),("MagneticFieldNumeric2D.cpp","M01"),("MagneticFieldAnalytical2D","M02"),
("NumericDistributionFunction.cpp","F01 F04"),("NumericMomentum","F02 F01 F04"),("RadialProfile","F03"),("RadialDistribution","F03"),("MomentumSpaceDistributionFunction.cpp","F02 F03"),
("DREAMDist","F04"),("GOCODE","F04"),("LUKEDist","F04"),("CODEDist","F04"),("deprSOFT","F04"),("SOFTDist","F04"),
("ProgressTracker","G01 G03"),("Timer","G02 G03"),("SOFTLibException","G04"),("ConfigurationException","G04"),("Image","G05"),
("RungeKutta","N01"),("RKDP45","N01"),("Integrator","N01"),("PeakedIntegration","Q01"),("Vector.","V01"),("Matrix.","V02"),("Vector","V01"),("Matrix","V02")]
def checks(f):
    for k,v in MAP:
        if k in f: return v.split()
    return []
OPS=[(r"<=","<"),(r">=",">"),(r"(?<![<\-=])<(?![<=])","<="),(r"(?<![>\-=])>(?![>=])",">="),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),(r"\+\+","--"),
 (r"\+ ?1\b",""),(r"- ?1\b",""),(r"(?<=[\w\])] )\+(?= )","-"),(r"(?<=[\w\])] )-(?= )","+"),(r"(?<=[\w\])])\*(?=[\w(])","/"),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"(?<=[\[( =])0(?=[\]);, ])","1"),(r"(?<=[\[( =])1(?=[\]);, ])","0"),(r"(?<=[\[( =])1(?=[\]);, ])","2"),
 (r"\b2\b","3"),(r"!(?=\w)",""),(r"\+=","-="),(r"\bif ?\(","if (!("),]
def muts(path):
    L=open(path).read().split("\n"); out=[]; com=False
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith("/*"): com="*/" not in s; continue
        if com:
            if "*/" in s: com=False
            continue
        if not s or s.startswith(("//","*","#","using","template","namespace","friend","case","typedef")): continue
        code=l.split("//")[0]
        if re.match(r"^[\w:<>,\*& ]+\(.*\{?$",code) and not code.startswith((" ","\t")): continue
        for a,b in OPS:
            for m in re.finditer(a,code):
                if code[:m.start()].count('"')%2: continue
                if "if (!(" in b:
                    # negate the whole condition if on one line
                    d=0;j=m.end()-1
                    for j in range(m.end()-1,len(code)):
                        d+=code[j]=="("; d-=code[j]==")"
                        if d==0: break
                    if d: continue
                    n=code[:m.start()]+"if (!"+code[m.end()-1:j+1]+")"+code[j+1:]
                else: n=code[:m.start()]+b+code[m.end():]
                out.append((i,l,n))
        if s.endswith(";") and "(" in s+"=" and not s.startswith(("return","break","continue","else","throw","for","while","if","}")) and ("=" in s or "(" in s) and not re.match(r"^(const |unsigned |static )*[\w:<>]+[ \*&]+\w+(\[.*\])?( ?=.*)?;",s):
            out.append((i,l,"/*del*/;"))
        if s in("break;","continue;"): out.append((i,l,";"))
    return L,out
if not os.path.exists(W): subprocess.check_call(["git","clone","-q",SRC,W])
subprocess.check_call(["git","-C",W,"fetch","-q"]); subprocess.check_call(["git","-C",W,"reset","-q","--hard","origin/HEAD"])
files=[]
for r,_,fs in os.walk(W):
    if "/.git" in r or "/tests" in r or "_build" in r: continue
    for f in fs:
        p=os.path.join(r,f)
        if f.endswith((".cpp",".h",".tcc",".hpp")) and checks(os.path.relpath(p,W)): files.append(os.path.relpath(p,W))
files=[f for f in sorted(files) if not pats or any(x in f for x in pats)]
todo=[]
for f in files:
    L,ms=muts(W+"/"+f)
    ms2=rng.sample(ms,min(PER,len(ms)))
    todo+=[(f,)+m for m in ms2]
rng.shuffle(todo)
print(len(files),"files",len(todo),"mutants",flush=True)
log=open(LOG,"a")
for f,i,old,new in todo:
    p=W+"/"+f; L=open(p).read().split("\n"); assert L[i]==old
    L[i]=new; open(p,"w").write("\n".join(L))
    verdict="SURVIVED"
    for c in checks(f):
        t=time.time()
        try: r=subprocess.run(["python3","check.py",c],cwd=VW,env=dict(os.environ,VERIF_REPO=W),capture_output=True,text=True,timeout=900); rc=r.returncode
        except subprocess.TimeoutExpired: rc="timeout"
        if rc==1: verdict="caught "+c; break
        if rc!=0:
            o=r.stdout+r.stderr if rc!="timeout" else ""
            verdict="nobuild" if "build failed" in o else "RC=%s %s %s"%(rc,c,o[-300:].replace("\n","|")); break
    log.write("%s %s:%d  %s  ->  %s\n"%(verdict,f,i+1,old.strip(),new.strip())); log.flush()
    subprocess.check_call(["git","-C",W,"checkout","-q","--","."])
