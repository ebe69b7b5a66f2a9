// Driver for the analytical magnetic field (M02). Parameters and coordinates are whole numbers (fractions for the
// safety factor); values are reported in millionths.
#include "hcommon.h"
#include <cmath>
#include <limits>
#include <map>
#include <softlib/SOFTLibException.h>
#include <softlib/Vector.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
using namespace std;
static map<int,MagneticFieldAnalytical2D*> pool;
struct Gone{};
static MagneticFieldAnalytical2D*at(int i){auto k=pool.find(i);if(k==pool.end())throw Gone();return k->second;}
static J mi(double v){double u=v*1e6;return fabs(u)<2e9?J((long long)nearbyint(u)):J(2000000001LL);}
static J wh(double v,double u=1){v*=u;double r=nearbyint(v);return fabs(v-r)<1e-9*(1+fabs(v))?J((long long)r):J(2000000007LL);}
static J list(initializer_list<double> l){J a=J::arr();for(double v:l)a.push(mi(v));return a;}
static double frac(const J&j){return (double)j[0].i/(double)j[1].i;}
static bool near(double a,double b,double tol,double scale){return fabs(a-b)<=tol*(scale+fabs(a)+fabs(b));}
static void step(const J&o,J&e){
    string op=o["op"].s; int id=o["id"].i;
    if(op=="ana"){
        string q=o["qt"].s; enum MFASafetyFactorType t=q=="const"?MFASF_CONSTANT:q=="lin"?MFASF_LINEAR:q=="quad"?MFASF_QUADRATIC:q=="exp"?MFASF_EXPONENTIAL:MFASF_CURRENT;
        double p1=frac(o["p1"]),p2=frac(o["p2"]); if(q=="exp")p1*=log(2.0)*o["a"].i; if(q=="cur"&&p2<0)p2=numeric_limits<double>::infinity();
        auto sb=o["sB"].i>0?MFAFS_CCW:MFAFS_CW,si=o["sI"].i>0?MFAFS_CCW:MFAFS_CW;
        if(o["named"].i)pool[id]=new MagneticFieldAnalytical2D(o["B0"].i,o["Rm"].i,o["zm"].i,o["a"].i,sb,si,t,p1,p2,o["name"].s,o["desc"].s);
        else pool[id]=new MagneticFieldAnalytical2D(o["B0"].i,o["Rm"].i,o["zm"].i,o["a"].i,sb,si,t,p1,p2);
        return; }
    auto*f=at(id); MagneticField2D*g=f;
    if(op=="clone"){pool[(int)o["to"].i]=o["base"].i?dynamic_cast<MagneticFieldAnalytical2D*>(g->Clone()):f->Clone();return;}
    if(op=="setb0"){f->SetB0(o["B0"].i);return;}
    if(op=="del"){pool.erase(id);delete g;return;}
    if(op=="get"){
        J a=J::arr();a.push(wh(g->GetMagneticAxisR()));a.push(wh(g->GetMagneticAxisZ()));e.set("axis",a); e.set("a",wh(f->GetRMinor())); e.set("B0",wh(f->GetB0())); e.set("name",J(g->GetName()));e.set("desc",J(g->GetDescription()));e.set("flux",J((bool)g->HasMagneticFlux()));
        double am=f->GetRMinor(),*r=g->GetRDomain(),*z=g->GetZDomain(),*rs=g->GetRSeparatrix(),*zs=g->GetZSeparatrix(); unsigned n=g->GetNDomain(); bool c=n>8&&f->GetRMajor()==g->GetMagneticAxisR()&&g->GetNSeparatrix()==n;
        if(c)for(unsigned i=0;i<n;i++){c=c&&near(hypot(r[i]-g->GetMagneticAxisR(),z[i]-g->GetMagneticAxisZ()),am,1e-9,1)&&rs[i]==r[i]&&zs[i]==z[i];if(i)c=c&&hypot(r[i]-r[i-1],z[i]-z[i-1])<.3*am;}
        c=c&&hypot(r[n-1]-r[0],z[n-1]-z[0])<.3*am; double b[4];g->GetDomainBounds(b[0],b[1],b[2],b[3]); c=c&&b[1]-b[0]>1.98*am&&b[3]-b[2]>1.98*am;
        e.set("circle",J(c)); J x=J::arr();x.push(J((long long)nearbyint(g->GetMinRadius()*1000)));x.push(J((long long)nearbyint(g->GetMaxRadius()*1000)));e.set("ext",x);
        return; }
    if(op=="num"){
        unsigned nr=o["nr"].i,nz=o["nz"].i; MagneticField2D*m=f->ToNumeric2D(nr,nz); bool ok=true,dom=m->GetNDomain()==g->GetNDomain(),fl=m->HasMagneticFlux(); double R0=f->GetRMajor(),am=f->GetRMinor(),z0=g->GetMagneticAxisZ();
        for(unsigned i=0;i<nr;i++)for(unsigned j=0;j<nz;j++){double R=R0-am+2*am*i/(nr-1.0),z=z0-am+2*am*j/(nz-1.0),b[3];for(int k=0;k<3;k++)b[k]=g->Eval(R,0,z)[k];double*c=m->Eval(R,0,z);for(int k=0;k<3;k++)ok=ok&&near(b[k],c[k],1e-6,1);if(fl)fl=near(g->EvalFlux(R,0,z),m->EvalFlux(R,0,z),1e-6,1);}
        if(dom)for(unsigned i=0;i<g->GetNDomain();i++)dom=dom&&m->GetRDomain()[i]==g->GetRDomain()[i]&&m->GetZDomain()[i]==g->GetZDomain()[i];
        e.set("nodes",J(ok));e.set("domain",J(dom));e.set("flux",J(fl));J a=J::arr();a.push(wh(m->GetMagneticAxisR()));a.push(wh(m->GetMagneticAxisZ()));e.set("axis",a);e.set("name",J(m->GetName()));delete m;return; }
    if(op=="fd"){
        double p[3];for(int k=0;k<3;k++)p[k]=strtod(o["p"][k].s.c_str(),0); double h=1e-5; bool s[5]={1,1,1,1,1};
        auto d=g->EvalDerivatives(p[0],p[1],p[2]); double Jm[3][3],B[3]; for(int i=0;i<3;i++)for(int k=0;k<3;k++)Jm[i][k]=d.J[i][k]; double*bb=g->Eval(p[0],p[1],p[2]);for(int i=0;i<3;i++){B[i]=bb[i];s[0]=s[0]&&near(B[i],d.B[i],1e-12,fabs(d.Babs));}
        double sc=0;for(int i=0;i<9;i++)sc=fmax(sc,fabs(Jm[i/3][i%3]));
        for(int k=0;k<3;k++){double u[3],v[3],a[3];for(int i=0;i<3;i++)u[i]=v[i]=p[i];u[k]+=h;v[k]-=h;bb=g->Eval(u[0],u[1],u[2]);for(int i=0;i<3;i++)a[i]=bb[i];bb=g->Eval(v[0],v[1],v[2]);for(int i=0;i<3;i++)s[0]=s[0]&&near((a[i]-bb[i])/(2*h),Jm[i][k],1e-5,sc);}
        double c[3]={Jm[2][1]-Jm[1][2],Jm[0][2]-Jm[2][0],Jm[1][0]-Jm[0][1]}; for(int i=0;i<3;i++)s[1]=s[1]&&near(c[i],d.curlB[i],1e-9,sc);
        for(int k=0;k<3;k++)s[2]=s[2]&&near((B[0]*Jm[0][k]+B[1]*Jm[1][k]+B[2]*Jm[2][k])/d.Babs,d.gradB[k],1e-9,sc);
        s[3]=near(Jm[0][0]+Jm[1][1]+Jm[2][2],0,1e-9,sc)&&near(d.Babs,sqrt(B[0]*B[0]+B[1]*B[1]+B[2]*B[2]),1e-12,0);
        double R=hypot(p[0],p[1]);auto*fd=g->EvalFluxDerivatives(p[0],p[1],p[2]);double F[3]={fd->psi,fd->dpsi_dR,fd->dpsi_dZ},fs=fabs(F[1])+fabs(F[2])+1e-3;
        s[4]=near(F[0],g->EvalFlux(p[0],p[1],p[2]),1e-12,0)&&near((g->EvalFlux(R+h,0,p[2])-g->EvalFlux(R-h,0,p[2]))/(2*h),F[1],1e-5,fs)&&near((g->EvalFlux(R,0,p[2]+h)-g->EvalFlux(R,0,p[2]-h))/(2*h),F[2],1e-5,fs);
        J a=J::arr();for(bool b:s)a.push(J(b));e.set("same",a);return; }
    double x=o["x"].i,y=o["y"].i,z=o["z"].i; string how=o["how"].s; double xyz[3]={x,y,z}; Vector<3> V;V[0]=x;V[1]=y;V[2]=z;
    if(op=="eval"){double*b=how=="arr"?g->Eval(xyz):how=="vec"?g->Eval(V):g->Eval(x,y,z);e.set("b",list({b[0],b[1],b[2]}));return;}
    if(op=="der"){auto&d=how=="arr"?g->EvalDerivatives(xyz):how=="vec"?g->EvalDerivatives(V):g->EvalDerivatives(x,y,z);auto*b=d.B;e.set("b",list({b[0],b[1],b[2]}));J a=J::arr();for(int i=0;i<9;i++)a.push(mi(d.J[i/3][i%3]));e.set("J",a);e.set("curl",list({d.curlB[0],d.curlB[1],d.curlB[2]}));e.set("grad",list({d.gradB[0]*d.Babs,d.gradB[1]*d.Babs,d.gradB[2]*d.Babs}));e.set("b2",mi(d.Babs*d.Babs));return;}
    if(op=="flux"){double p=how=="arr"?g->EvalFlux(xyz):how=="vec"?g->EvalFlux(V):g->EvalFlux(x,y,z);e.set("val",list({p/M_PI}));return;}
    if(op=="dflux"){auto*d=how=="arr"?g->EvalFluxDerivatives(xyz):how=="vec"?g->EvalFluxDerivatives(V):g->EvalFluxDerivatives(x,y,z);e.set("val",list({d->psi/M_PI,d->dpsi_dR/M_PI,d->dpsi_dZ/M_PI}));return;}
    e.set("bad",J("op"));
}
void runCase(const J&c){
    pool.clear();
    for(auto&o:c["ops"].a){
        J e=o; string ret="ok";
        try{ step(o,e); } catch(Gone&){ret="gone";} catch(SOFTLibException&){ret="exc";} catch(exception&){ret="other";}
        e.set("ret",J(ret)); emit(e);
    }
}
