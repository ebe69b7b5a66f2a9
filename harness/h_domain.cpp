// Driver for the boundary of a magnetic field: crossings, extents, lines of sight (D01-D03).
#include "hcommon.h"
#include <cmath>
#include <vector>
#include <softlib/MagneticField/MagneticField2D.h>
#include <softlib/SOFTLibException.h>
using namespace std;
class MF:public MagneticField2D{
public:
    struct flux_diff fd; slibreal_t b[3]={0,0,0};
    void axis(double r,double z){magnetic_axis[0]=r;magnetic_axis[1]=z;}
    MF*Clone()override{return new MF(*this);}
    using MagneticField2D::Eval; using MagneticField2D::EvalDerivatives; using MagneticField2D::EvalFlux; using MagneticField2D::EvalFluxDerivatives;
    slibreal_t*Eval(slibreal_t,slibreal_t,slibreal_t)override{return b;}
    struct magnetic_field_data&EvalDerivatives(slibreal_t,slibreal_t,slibreal_t)override{return magdata;}
    slibreal_t EvalFlux(slibreal_t,slibreal_t,slibreal_t)override{return 0;}
    struct flux_diff*EvalFluxDerivatives(slibreal_t,slibreal_t,slibreal_t)override{return &fd;}
    bool HasMagneticFlux()override{return false;}
};
static double S=1,Z0=0;
static double num(const J&j){return j.t==J::STR?strtod(j.s.c_str(),0):(double)j.i;}
static double R(const J&j){return num(j)*S;}
static double Z(const J&j){return (num(j)+Z0)*S;}
// a reported length, in units of 1/840 of the grid; "off" if it is not a whole number of them
static J outn(double v,bool z){double u=v/S; if(z)u-=Z0; u*=840; double r=nearbyint(u); if(!(fabs(u-r)<1e-4)||fabs(r)>2e9)return J("off"); return J((long long)r);}
template<class F> static string tf(F f){try{return f()?"yes":"no";}catch(SOFTLibException&){return "exc";}}
void runCase(const J&c){
    S=num(c["scale"]); Z0=num(c["shift"]);
    MF*mf=new MF(); vector<vector<double>*> keep;
    for(auto&o:c["ops"].a){ J e=o; string op=o["op"].s;
        if(op=="set"){
            mf->axis(R(o["ax"].a[0]),Z(o["ax"].a[1]));
            auto*r=new vector<double>,*z=new vector<double>; for(auto&p:o["poly"].a){r->push_back(R(p.a[0]));z->push_back(Z(p.a[1]));}
            keep.push_back(r);keep.push_back(z);
            try{mf->SetDomain(r->data(),z->data(),r->size());e.set("res","ok");}catch(SOFTLibException&){e.set("res","exc");}
        }else if(op=="cross"||op=="inside"){
            J rs=J::arr(); double h1=num(o["ph"].a[0]),h2=num(o["ph"].a[1]);
            double qr=R(o["q"].a[0]),qz=Z(o["q"].a[1]); slibreal_t b[3]={qr*cos(h2),qr*sin(h2),qz};
            if(op=="cross"){double pr=R(o["p"].a[0]),pz=Z(o["p"].a[1]); slibreal_t a[3]={pr*cos(h1),pr*sin(h1),pz};
                rs.push(tf([&]{return mf->CrossesDomain(a,b);})); rs.push(tf([&]{return mf->CrossesDomain(a[0],a[1],a[2],b[0],b[1],b[2]);})); rs.push(tf([&]{return mf->CrossesDomain(b,a);}));
            }else{rs.push(tf([&]{return mf->CrossesDomain(b);})); rs.push(tf([&]{return mf->CrossesDomain(b[0],b[1],b[2]);}));}
            e.set("res",rs);
        }else if(op=="bounds"){ slibreal_t a,b,d,f; mf->GetDomainBounds(a,b,d,f); J r=J::arr(); r.push(outn(a,false)).push(outn(b,false)).push(outn(d,true)).push(outn(f,true)); e.set("res",r);
        }else if(op=="radius"){ J r=J::arr(); try{ string h=o["how"].s;
                double mx,mn; if(h=="getmin"){mn=mf->GetMinRadius();mx=mf->GetMaxRadius();} else if(h=="find"){mx=mf->FindMaxRadius();mn=mf->FindMinRadius();} else if(h=="findmin"){mn=mf->FindMinRadius();mx=mf->GetMaxRadius();} else {mx=mf->GetMaxRadius();mn=mf->GetMinRadius();}
                r.push(outn(mn,false)).push(outn(mx,false));}catch(SOFTLibException&){r=J::arr();} e.set("res",r);
        }else if(op=="maxz"){ J r=J::arr(); slibreal_t a=-1e9,b=1e9; try{ if(o["how"].s=="args")mf->FindMaxZ(mf->GetNDomain(),mf->GetRDomain(),mf->GetZDomain(),R(o["at"]),a,b); else mf->FindMaxZ(R(o["at"]),a,b); r.push(outn(a,true)).push(outn(b,true));}catch(SOFTLibException&){r=J::arr();} e.set("res",r);
        }else if(op=="minmax"){ J r=J::arr(); slibreal_t a=-1e9,b=1e9; try{ mf->FindMaxMin(mf->GetNDomain(),mf->GetRDomain(),mf->GetZDomain(),Z(o["at"]),a,b); r.push(outn(a,false)).push(outn(b,false));}catch(SOFTLibException&){r=J::arr();} e.set("res",r);
        }else if(op=="getters"){ J r=J::arr(); unsigned n=mf->GetNDomain(); for(unsigned i=0;i<n&&i<100;i++)r.push(J::arr().push(outn(mf->GetRDomain()[i],false)).push(outn(mf->GetZDomain()[i],true))); e.set("res",r);
            e.set("axis",J::arr().push(outn(mf->GetMagneticAxisR(),false)).push(outn(mf->GetMagneticAxisZ(),true)).push(outn(mf->GetMagneticAxis()[0],false)).push(outn(mf->GetMagneticAxis()[1],true)));
        }else if(op=="los"){ J rs=J::arr(); double h=num(o["ph"]); double cs=cos(h),sn=sin(h); if(h==0){cs=1;sn=0;}
            auto pt=[&](const J&p,slibreal_t*x){double a=R(p.a[0]),b=R(p.a[1]); x[0]=a*cs-b*sn; x[1]=a*sn+b*cs; x[2]=Z(p.a[2]);};
            slibreal_t a[3],b[3]; pt(o["p"],a); pt(o["q"],b); bool w=o["wall"].i;
            if(w){rs.push(tf([&]{return mf->IntersectsDomain3D(a,b);}));rs.push(tf([&]{return mf->IntersectsDomain3D(b[0],b[1],b[2],a[0],a[1],a[2]);}));rs.push(tf([&]{return mf->IntersectsDomain3D(a,b,true);}));}
            else{rs.push(tf([&]{return mf->IntersectsDomain3D(a,b,false);}));rs.push(tf([&]{return mf->IntersectsDomain3D(a[0],a[1],a[2],b[0],b[1],b[2],false);}));rs.push(tf([&]{return mf->IntersectsDomain3D(b,a,false);}));}
            e.set("res",rs);
        }else _Exit(96);
        emit(e);
    }
    delete mf; for(auto*k:keep)delete k;
}
