// Driver for numeric magnetic fields (M01): programs over a pool of fields and a scratch directory of files.
// Lengths are whole ticks of size "scale"; components are whole numbers of the "unit"
// (both may need more digits than single precision has).
#include "hcommon.h"
#include <cmath>
#include <map>
#include <vector>
#include <dirent.h>
#include <sys/stat.h>
#include <softlib/SFile.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Vector.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
using namespace std;
static double T=1,U=1; static map<int,MagneticFieldNumeric2D*> pool; static string dir;
static J ri(double v){ if(!(fabs(v)<2e9))return J(2000000001LL); double r=nearbyint(v); return fabs(v-r)<1e-8*(1+fabs(v))+1e-7?J((long long)r):J(2000000007LL);}
// what is stored comes back to double precision
static J rx(double v){ if(!(fabs(v)<2e9))return J(2000000001LL); double r=nearbyint(v); return fabs(v-r)<1e-11*(1+fabs(v))?J((long long)r):J(2000000007LL);}
static vector<double> nums(const J&a,double u){vector<double> v;for(auto&x:a.a)v.push_back(x.i*u);return v;}
static double*arr(const vector<double>&v){double*p=new double[v.size()];for(size_t i=0;i<v.size();i++)p[i]=v[i];return p;}
static double*tab(const J&m){vector<double> v;for(auto&r:m.a)for(auto&x:r.a)v.push_back(x.i*U);return v.empty()?nullptr:arr(v);}
static void pts(const J&p,double*&r,double*&z,unsigned&n){n=p.a.size();if(n==0){r=z=nullptr;return;}r=new double[n];z=new double[n];for(unsigned i=0;i<n;i++){r[i]=p.a[i].a[0].i*T;z[i]=p.a[i].a[1].i*T;}}
static J jpts(const double*r,const double*z,unsigned n){J a=J::arr();for(unsigned i=0;i<n;i++){J q=J::arr();q.push(rx(r[i]/T));q.push(rx(z[i]/T));a.push(q);}return a;}
static string path(const J&f){return dir+"/"+f.s;}
static void writeVars(const J&v,const string&name){
    SFile*sf=SFile::Create(name,SFILE_MODE_WRITE);
    for(auto&kv:v.o){
        const string&n=kv.first; const J&x=kv.second; double u=(n=="maxis"||n=="r"||n=="z"||n=="wall"||n=="separatrix")?T:U;
        if(x.t==J::STR)sf->WriteString(n,x.s);
        else if(x.a.empty()||x.a[0].t!=J::ARR){auto l=nums(x,u);l.push_back(0);sf->WriteList(n,l.data(),x.a.size());}
        else{vector<vector<double>> rows;vector<double*> p;for(auto&r:x.a)rows.push_back(nums(r,u));for(auto&r:rows)p.push_back(r.data());sf->WriteArray(n,p.data(),rows.size(),rows[0].size());}
    }
    sf->Close(); delete sf;
}
struct Gone{};
static MagneticFieldNumeric2D*at(int i){auto k=pool.find(i);if(k==pool.end())throw Gone();return k->second;}
static J v3(const double*b,double k){J a=J::arr();for(int i=0;i<3;i++)a.push(ri(b[i]/U*k));return a;}
static void step(const J&o,J&e){
    string op=o["op"].s; int id=o.has("id")?(int)o["id"].i:-1;
    if(op=="new"){
        auto R=nums(o["R"],T),Z=nums(o["Z"],T); double*rs,*zs,*rw,*zw; unsigned ns,nw; pts(o["sep"],rs,zs,ns); pts(o["wall"],rw,zw,nw);
        pool[id]=new MagneticFieldNumeric2D(o["name"].s,o["desc"].s,arr(R),arr(Z),R.size(),Z.size(),tab(o["br"]),tab(o["bp"]),tab(o["bz"]),tab(o["psi"]),o["axis"].a[0].i*T,o["axis"].a[1].i*T,rs,zs,ns,rw,zw,nw);
        return; }
    if(op=="write"){writeVars(o["vars"],path(o["file"]));return;}
    if(op=="load"){ pool[id]=new MagneticFieldNumeric2D(path(o["file"])); return; }
    MagneticFieldNumeric2D*f=at(id); MagneticField2D*g=f;
    if(op=="reload"){ pool.erase(id); f->Load(path(o["file"])); f->InitInterpolation(); pool[id]=f; return; }
    if(op=="clone"){ pool[(int)o["to"].i]=o["base"].i?dynamic_cast<MagneticFieldNumeric2D*>(g->Clone()):f->Clone(); return; }
    if(op=="save"){ f->Save(path(o["file"])); return; }
    if(op=="del"){ pool.erase(id); delete g; return; }
    if(op=="get"){
        e.set("name",J(g->GetName())); e.set("desc",J(g->GetDescription()));
        J a=J::arr(); double*m=g->GetMagneticAxis(); a.push(m[0]==g->GetMagneticAxisR()?rx(m[0]/T):J(2000000003LL)); a.push(m[1]==g->GetMagneticAxisZ()?rx(m[1]/T):J(2000000003LL)); e.set("axis",a);
        e.set("flux",J((bool)g->HasMagneticFlux()));
        e.set("dom",jpts(g->GetRDomain(),g->GetZDomain(),g->GetNDomain()));
        e.set("sep",jpts(g->GetRSeparatrix(),g->GetZSeparatrix(),g->GetNSeparatrix()));
        J x=J::arr(); x.push(ri(g->GetMinRadius()/T*840)); x.push(ri(g->GetMaxRadius()/T*840)); e.set("ext",x);
        double b0,b1,b2,b3; g->GetDomainBounds(b0,b1,b2,b3); J b=J::arr(); b.push(ri(b0/T*840));b.push(ri(b1/T*840));b.push(ri(b2/T*840));b.push(ri(b3/T*840)); e.set("bnd",b);
        return; }
    if(op=="nodes"){
        J t[4]; for(int k=0;k<4;k++)t[k]=J::arr();
        for(auto&z:o["Z"].a){ J r[4]; for(int k=0;k<4;k++)r[k]=J::arr();
            for(auto&x:o["R"].a){ double*b=f->Eval(x.i*T,0,z.i*T); for(int k=0;k<3;k++)r[k].push(rx(b[k]/U)); if(g->HasMagneticFlux())r[3].push(rx(g->EvalFlux(x.i*T,0,z.i*T)/U)); }
            for(int k=0;k<4;k++)t[k].push(r[k]); }
        e.set("br",t[0]);e.set("bp",t[1]);e.set("bz",t[2]); e.set("psi",g->HasMagneticFlux()?t[3]:J::arr());
        return; }
    if(op=="cmp"){ MagneticField2D*h=at(o["other"].i); double u=strtod(o["u"].s.c_str(),0)*T,v=strtod(o["v"].s.c_str(),0)*T,w=strtod(o["w"].s.c_str(),0)*T; bool same=true;
        double b[13]; auto all=[&](MagneticField2D*m,double*q){double*B=m->Eval(u,v,w);for(int i=0;i<3;i++)q[i]=B[i];auto&d=m->EvalDerivatives(u,v,w);for(int i=0;i<3;i++){q[3+i]=d.gradB[i];q[6+i]=d.curlB[i];}q[9]=d.Babs;q[10]=q[11]=q[12]=0;if(m->HasMagneticFlux()){auto*p=m->EvalFluxDerivatives(u,v,w);q[10]=p->psi;q[11]=p->dpsi_dR;q[12]=p->dpsi_dZ;}};
        double c[13]; all(g,b); all(h,c); for(int i=0;i<13;i++)if(memcmp(b+i,c+i,8)&&!(std::isnan(b[i])&&std::isnan(c[i])))same=false; e.set("same",J(same)); return; }
    if(op=="turn"){ double R=strtod(o["u"].s.c_str(),0)*T,a=strtod(o["v"].s.c_str(),0),w=strtod(o["w"].s.c_str(),0)*T,c=cos(a),s=sin(a); bool same=true; auto eq=[&](double p,double q){if(std::isnan(p)&&std::isnan(q))return; if(!(fabs(p-q)<1e-6*(100*U+fabs(p)+fabs(q))))same=false;};
        double b[3]; for(int i=0;i<3;i++)b[i]=g->Eval(R,0,w)[i]; double*d=g->Eval(R*c,R*s,w); eq(d[0],b[0]*c-b[1]*s); eq(d[1],b[0]*s+b[1]*c); eq(d[2],b[2]);
        if(o["der"].i){ auto m=g->EvalDerivatives(R,0,w); double J0[9]; for(int i=0;i<9;i++)J0[i]=m.J[i/3][i%3]; auto&n=g->EvalDerivatives(R*c,R*s,w); eq(m.Babs,n.Babs); eq(n.gradB[0],m.gradB[0]*c-m.gradB[1]*s); eq(n.gradB[1],m.gradB[0]*s+m.gradB[1]*c); eq(n.gradB[2],m.gradB[2]); eq(n.curlB[0],m.curlB[0]*c-m.curlB[1]*s); eq(n.curlB[1],m.curlB[0]*s+m.curlB[1]*c); eq(n.curlB[2],m.curlB[2]);
            double tr0=J0[0]+J0[4]+J0[8]; eq(tr0,n.J[0][0]+n.J[1][1]+n.J[2][2]); }
        if(g->HasMagneticFlux())eq(g->EvalFlux(R,0,w),g->EvalFlux(R*c,R*s,w));
        e.set("same",J(same)); return; }
    double x=o["x"].i*T,y=o["y"].i*T,z=o["z"].i*T,r=o["r"].i; if(r==0)r=1; string how=o["how"].s; double xyz[3]={x,y,z}; Vector<3> V; V[0]=x;V[1]=y;V[2]=z;
    if(op=="eval"){ double*b=how=="arr"?g->Eval(xyz):how=="vec"?g->Eval(V):g->Eval(x,y,z); e.set("b",v3(b,r)); return; }
    if(op=="der"){ auto&d=how=="arr"?g->EvalDerivatives(xyz):how=="vec"?g->EvalDerivatives(V):g->EvalDerivatives(x,y,z); double r3=r*r*r*T;
        e.set("b",v3(d.B,r)); e.set("b2",ri(d.Babs*d.Babs/U/U*r*r)); J jj=J::arr(); for(int i=0;i<3;i++)for(int k=0;k<3;k++)jj.push(ri(d.J[i][k]/U*r3)); e.set("J",jj);
        e.set("curl",v3(d.curlB,r3)); e.set("grad",v3(d.gradB,d.Babs/U*r3*r)); return; }
    if(op=="flux"){ double p=how=="arr"?g->EvalFlux(xyz):how=="vec"?g->EvalFlux(V):g->EvalFlux(x,y,z); J a=J::arr();a.push(ri(p/U));e.set("val",a);return; }
    if(op=="dflux"){ auto*d=how=="arr"?g->EvalFluxDerivatives(xyz):how=="vec"?g->EvalFluxDerivatives(V):g->EvalFluxDerivatives(x,y,z); J a=J::arr();a.push(ri(d->psi/U));a.push(ri(d->dpsi_dR*T/U));a.push(ri(d->dpsi_dZ*T/U));e.set("val",a);return; }
    e.set("bad",J("op"));
}
static void wipe(){DIR*d=opendir(dir.c_str());if(d){while(auto*x=readdir(d)){string n=x->d_name;if(n!="."&&n!="..")unlink((dir+"/"+n).c_str());}closedir(d);}}
void runCase(const J&c){
    dir="w"; mkdir("w",0755); wipe();
    T=strtod(c["scale"].s.c_str(),0); U=c.has("unit")?strtod(c["unit"].s.c_str(),0):1; pool.clear();
    for(auto&o:c["ops"].a){
        J e=o; string ret="ok";
        try{ step(o,e); }
        catch(Gone&){ret="gone";}
        catch(SOFTLibException&x){ret="exc"; x.what();}
        catch(exception&x){ret="other";}
        e.set("ret",J(ret)); emit(e);
    }
    wipe();
}
