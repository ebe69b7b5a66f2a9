// Driver for LUKE equilibria (M03): programs over a pool of fields and a scratch directory of files.
// Lengths are whole ticks of size "scale"; components are whole numbers.
#include "hcommon.h"
#include <cmath>
#include <map>
#include <vector>
#include <dirent.h>
#include <sys/stat.h>
#include <softlib/SFile.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Vector.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/MagneticField/MagneticFieldLUKE.h>
using namespace std;
static double T=1; static map<int,MagneticFieldNumeric2D*> pool; static string dir;
static J ri(double v){ if(!(fabs(v)<2e9))return J(2000000001LL); double r=nearbyint(v); return fabs(v-r)<1e-8*(1+fabs(v))+1e-7?J((long long)r):J(2000000007LL);}
// what is stored comes back to double precision
static J rx(double v){ if(!(fabs(v)<2e9))return J(2000000001LL); double r=nearbyint(v); return fabs(v-r)<1e-11*(1+fabs(v))?J((long long)r):J(2000000007LL);}
static vector<double> nums(const J&a,double u){vector<double> v;for(auto&x:a.a)v.push_back(x.i*u);return v;}
static double*arr(const vector<double>&v){double*p=new double[v.size()];for(size_t i=0;i<v.size();i++)p[i]=v[i];return p;}
static double*tab(const J&m){vector<double> v;for(auto&r:m.a)for(auto&x:r.a)v.push_back((double)x.i);return v.empty()?nullptr:arr(v);}
static void pts(const J&p,double*&r,double*&z,unsigned&n){n=p.a.size();if(n==0){r=z=nullptr;return;}r=new double[n];z=new double[n];for(unsigned i=0;i<n;i++){r[i]=p.a[i].a[0].i*T;z[i]=p.a[i].a[1].i*T;}}
static J jpts(const double*r,const double*z,unsigned n){J a=J::arr();for(unsigned i=0;i<n;i++){J q=J::arr();q.push(rx(r[i]/T));q.push(rx(z[i]/T));a.push(q);}return a;}
static string path(const J&f){return dir+"/"+f.s;}
static J mi(double v){ return fabs(v)<2000?J((long long)nearbyint(v*1e6)):J(2000000001LL); }
static void writeVars(const J&v,const string&name){
    SFile*sf=SFile::Create(name,SFILE_MODE_WRITE); bool eq=false; for(auto&kv:v.o)if(kv.first!="wall")eq=true;
    if(eq){sf->CreateStruct("equil");sf->CreateStruct("equil/eqdsk");}
    for(auto&kv:v.o){
        string n=kv.first; const J&x=kv.second; double u=n=="xypsin"?.25:n=="theta"?M_PI/4:(n=="psia"||n=="psi"||n.substr(0,3)=="ptB")?1:T;
        string f=n=="wall"?n:n=="psi"?"equil/psi_apRp":(n=="x"||n=="y"||n=="xypsin"||n=="psia")?"equil/eqdsk/"+n:"equil/"+n;
        if(x.t==J::STR)sf->WriteString(f,x.s);
        else if(x.t!=J::ARR)sf->WriteScalar(f,x.i*u);
        else if(x.a.empty()||x.a[0].t!=J::ARR){auto l=nums(x,u);l.push_back(0);sf->WriteList(f,l.data(),x.a.size());}
        else{vector<vector<double>> rows;vector<double*> p;for(auto&r:x.a)rows.push_back(nums(r,u));for(auto&r:rows)p.push_back(r.data());sf->WriteArray(f,p.data(),rows.size(),rows[0].size());}
    }
    sf->Close(); delete sf;
}
struct Gone{};
static MagneticFieldNumeric2D*at(int i){auto k=pool.find(i);if(k==pool.end())throw Gone();return k->second;}
static J v3(const double*b,double k){J a=J::arr();for(int i=0;i<3;i++)a.push(ri(b[i]*k));return a;}
static MagneticFieldNumeric2D*make(const J&o){ string f=path(o["file"]),w=o["wall"].s; bool hw=!w.empty(); if(hw)w=path(o["wall"]); string how=o["how"].s; auto ft=SFile::TypeOfFile(f),wt=hw?SFile::TypeOfFile(w):SFILE_TYPE_UNKNOWN;
    if(how=="all")return new MagneticFieldLUKE(f,ft,w,wt); if(how=="two"&&hw)return new MagneticFieldLUKE(f,ft,w); if(!hw)return how=="type"?new MagneticFieldLUKE(f,ft):new MagneticFieldLUKE(f); return new MagneticFieldLUKE(f,w); }
static void again(MagneticFieldLUKE*l,const J&o){ string f=path(o["file"]),w=o["wall"].s; bool hw=!w.empty(); if(hw)w=path(o["wall"]); string how=o["how"].s; auto ft=SFile::TypeOfFile(f),wt=hw?SFile::TypeOfFile(w):SFILE_TYPE_UNKNOWN;
    if(how=="all")l->Load(f,ft,w,wt); else if(how=="two"&&hw)l->Load(f,ft,w); else if(!hw){if(how=="type")l->Load(f,ft);else l->Load(f);} else l->Load(f,w); }
static void step(const J&o,J&e){
    string op=o["op"].s; int id=o.has("id")?(int)o["id"].i:-1;
    if(op=="write"){writeVars(o["vars"],path(o["file"]));return;}
    if(op=="load"){ pool[id]=make(o); return; }
    MagneticFieldNumeric2D*f=at(id); MagneticField2D*g=f;
    if(op=="reload"||op=="wall"){ auto*l=dynamic_cast<MagneticFieldLUKE*>(f); if(!l)throw Gone(); pool.erase(id);
        if(op=="reload"){again(l,o); l->InitInterpolation();}
        else { string w=o["wall"].s; bool hw=!w.empty(); if(hw)w=path(o["wall"]); if(o["how"].s=="all"||!hw)l->LoadWall(w,hw?SFile::TypeOfFile(w):SFILE_TYPE_UNKNOWN); else l->LoadWall(w); }
        pool[id]=f; return; }
    if(op=="clone"){ pool[(int)o["to"].i]=o["base"].i?dynamic_cast<MagneticFieldNumeric2D*>(g->Clone()):f->Clone(); return; }
    if(op=="convert"){ string n=dir+"/conv."+o["ext"].s; f->Save(n); pool[(int)o["to"].i]=new MagneticFieldNumeric2D(n); unlink(n.c_str()); return; }
    if(op=="del"){ pool.erase(id); delete g; return; }
    if(op=="get"){
        e.set("name",J(g->GetName())); e.set("desc",J(g->GetDescription()));
        J a=J::arr(); double*m=g->GetMagneticAxis(); a.push(m[0]==g->GetMagneticAxisR()?rx(m[0]/T):J(2000000003LL)); a.push(m[1]==g->GetMagneticAxisZ()?rx(m[1]/T):J(2000000003LL)); e.set("axis",a);
        e.set("flux",J((bool)g->HasMagneticFlux()));
        e.set("dom",jpts(g->GetRDomain(),g->GetZDomain(),g->GetNDomain()));
        e.set("sep",jpts(g->GetRSeparatrix(),g->GetZSeparatrix(),g->GetNSeparatrix()));
        J x=J::arr(); x.push(ri(g->GetMinRadius()/T*840)); x.push(ri(g->GetMaxRadius()/T*840)); e.set("ext",x);
        double b0,b1,b2,b3; g->GetDomainBounds(b0,b1,b2,b3); J b=J::arr(); b.push(ri(b0/T*840));b.push(ri(b1/T*840));b.push(ri(b2/T*840));b.push(ri(b3/T*840)); e.set("bnd",b);
        return; }
    if(op=="nodes"){
        J t[4]; for(int k=0;k<4;k++)t[k]=J::arr();
        for(auto&z:o["Z"].a){ J r[4]; for(int k=0;k<4;k++)r[k]=J::arr();
            for(auto&x:o["R"].a){ double*b=f->Eval(x.i*T,0,z.i*T); for(int k=0;k<3;k++)r[k].push(mi(b[k])); if(g->HasMagneticFlux())r[3].push(mi(g->EvalFlux(x.i*T,0,z.i*T))); }
            for(int k=0;k<4;k++)t[k].push(r[k]); }
        e.set("br",t[0]);e.set("bp",t[1]);e.set("bz",t[2]); e.set("psi",g->HasMagneticFlux()?t[3]:J::arr());
        return; }
    e.set("bad",J("op"));
}
static void wipe(){DIR*d=opendir(dir.c_str());if(d){while(auto*x=readdir(d)){string n=x->d_name;if(n!="."&&n!="..")unlink((dir+"/"+n).c_str());}closedir(d);}}
void runCase(const J&c){
    dir="w"; mkdir("w",0755); wipe();
    T=strtod(c["scale"].s.c_str(),0); pool.clear();
    for(auto&o:c["ops"].a){
        J e=o; string ret="ok";
        try{ step(o,e); }
        catch(Gone&){ret="gone";}
        catch(SOFTLibException&x){ret="exc"; x.what();}
        catch(exception&x){ret="other";}
        e.set("ret",J(ret)); emit(e);
    }
    wipe();
}
