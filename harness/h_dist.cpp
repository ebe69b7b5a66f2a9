// Driver for distribution functions and radial profiles (F01-F04): programs over a pool of objects.
// Lengths are given in ticks of T, pitches in ticks of X, table values in units of U; values are reported in units of U/53760.
// (T and U need more digits than single precision has, so that nothing may pass through it.)
#include "hcommon.h"
#include <cmath>
#include <map>
#include <memory>
#include <vector>
#include <softlib/constants.h>
#include <softlib/SFile.h>
#include <softlib/SOFTLibException.h>
#include <softlib/MagneticField/MagneticField2D.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
using namespace std;
class MF:public MagneticField2D{
public:
    struct flux_diff fd; slibreal_t b[3]={0,0,0}; slibreal_t dr[4],dz[4];
    MF(double r,double w){magnetic_axis[0]=r;magnetic_axis[1]=0; double R[4]={r-w/2,r+w,r+w,r-w/2},Z[4]={-1,-1,1,1}; for(int i=0;i<4;i++){dr[i]=R[i];dz[i]=Z[i];} SetDomain(dr,dz,4);}
    MF*Clone()override{return new MF(*this);}
    using MagneticField2D::Eval; using MagneticField2D::EvalDerivatives; using MagneticField2D::EvalFlux; using MagneticField2D::EvalFluxDerivatives;
    slibreal_t*Eval(slibreal_t,slibreal_t,slibreal_t)override{return b;}
    struct magnetic_field_data&EvalDerivatives(slibreal_t,slibreal_t,slibreal_t)override{return magdata;}
    slibreal_t EvalFlux(slibreal_t,slibreal_t,slibreal_t)override{return 0;}
    struct flux_diff*EvalFluxDerivatives(slibreal_t,slibreal_t,slibreal_t)override{return &fd;}
    bool HasMagneticFlux()override{return false;}
};
static double T=0.25,X=0.25,U=1;
struct Obj{DistributionFunction*d=0; RadialProfile*p=0; double norm=1;};   // norm: what the values are reported in units of
static map<int,Obj> pool; static vector<vector<double>*> keep;
struct Gone{};
static Obj&at(int k){auto i=pool.find(k);if(i==pool.end())throw Gone();return i->second;}
static double*own(const vector<double>&v){auto*k=new vector<double>(v);keep.push_back(k);return k->data();}
static vector<double> ticks(const J&a,double t){vector<double> v;for(auto&x:a.a)v.push_back(x.i*t);return v;}
// table entries: the number itself, or in logarithmic mode a power of two, -1 for zero, -2 for a negative value
static vector<double> table(const J&rows,bool lg){vector<double> v;for(auto&r:rows.a)for(auto&x:r.a)v.push_back(U*(!lg?(double)x.i:x.i==-1?0.0:x.i<-1?-1.0:ldexp(1,x.i)));return v;}
static J outv(double v,double unit=53760){double u=v*unit; if(!(fabs(u)<1e9))return J(2000000001LL); double r=nearbyint(u); return fabs(u-r)<1e-9*(1e4+fabs(u))?J((long long)r):J(2000000007LL);}
static double num(const J&j){return j.t==J::STR?strtod(j.s.c_str(),0):(double)j.i;}
static void writeFile(const J&f,const string&name){
    SFile*sf=SFile::Create(name,SFILE_MODE_WRITE);
    for(auto&g:f["groups"].a)sf->CreateStruct(g.s);
    for(auto&v:f["vars"].a){
        if(v.has("s")){sf->WriteString(v["n"].s,v["s"].s);continue;}
        double u=num(v["u"]); string nm=v["n"].s; nm=nm.substr(nm.find_last_of('/')+1); if(nm=="f"||nm=="f_re"||nm=="f_hot"||nm=="fp0"||nm=="fxi0"||nm=="fr0")u*=U; if(nm=="r"||nm=="p"||nm=="p1"||nm=="pn"||nm=="y")u*=T/0.25; if(nm=="xi"||nm=="p2"||nm=="mhu")u*=X/0.25;
        vector<double> x; for(auto&k:v["v"].a)x.push_back((k.t==J::STR?strtod(k.s.c_str(),0):(double)k.i)*u);
        auto&d=v["d"].a; vector<double> pad(x); pad.push_back(0);
        if(d.size()==1)sf->WriteList(v["n"].s,pad.data(),d[0].i);
        else if(d.size()==2){vector<double*> rows;for(long long i=0;i<d[0].i;i++)rows.push_back(pad.data()+i*d[1].i);sf->WriteArray(v["n"].s,rows.data(),d[0].i,d[1].i);}
        else{vector<sfilesize_t> dd;for(auto&k:d)dd.push_back(k.i);sf->WriteMultiArray(v["n"].s,pad.data(),dd.size(),dd.data());}
    }
    sf->Close();
}
static int im(const J&o){return o["cub"].i?NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC:NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR;}
static int codeInt(const J&o){ string s=o["it"].s; typedef CODEDistributionFunction C; return s=="cspline"?(int)C::INTERPOLATION_CSPLINE:s=="akima"?(int)C::INTERPOLATION_AKIMA:s=="steffen"?(int)C::INTERPOLATION_STEFFEN:s=="poly"?(int)C::INTERPOLATION_POLYNOMIAL:s=="none"?(int)C::INTERPOLATION_STEFFEN+7:(int)C::INTERPOLATION_LINEAR; }
static double code_norm(const J&o){double n=num(o["nref"]),t=num(o["tref"]); double d=2*M_PI*ELECTRON_MASS*t; return n/(sqrt(d)*d);}
static J step(const J&o){
    string op=o["op"].s; int id=o["id"].i; Obj x; x.norm=U;
    if(op=="new2"){ auto p=ticks(o["p"],T),xi=ticks(o["x"],X); auto f=table(o["f"],o["log"].i); auto*m=new NumericMomentumSpaceDistributionFunction(); x.d=m;
        double*ff=own(f);
        if(o["log"].i)m->InitializeLog(p.size(),xi.size(),own(p),own(xi),ff,im(o)); else m->Initialize(p.size(),xi.size(),own(p),own(xi),ff,im(o));
        pool[id]=x; for(size_t i=0;i<f.size();i++)if(memcmp(ff+i,&f[i],8))return J("changed"); return J("ok"); }
    if(op=="unit"){x.d=new UnitDistributionFunction();x.norm=1;pool[id]=x;return J("ok");}
    if(op=="new3"){x.d=new NumericDistributionFunction();pool[id]=x;return J("ok");}
    if(op=="init3"){ auto*d=new NumericDistributionFunction(); x.d=d; auto r=ticks(o["r"],T),p=ticks(o["p"],T),xi=ticks(o["x"],X); vector<double> f; for(auto&t:o["f"].a){auto g=table(t,o["log"].i);f.insert(f.end(),g.begin(),g.end());}
        double*ff=own(f); bool al=o["alloc"].i;
        if(o["log"].i)d->InitializeLog(r.size(),p.size(),xi.size(),own(r),own(p),own(xi),ff,im(o),al); else d->Initialize(r.size(),p.size(),xi.size(),own(r),own(p),own(xi),ff,im(o));
        pool[id]=x; if(al||!o["log"].i)for(size_t i=0;i<f.size();i++)if(memcmp(ff+i,&f[i],8))return J("changed"); return J("ok"); }
    if(op=="ins3"){ auto*d=(NumericDistributionFunction*)at(id).d; auto p=ticks(o["p"],T),xi=ticks(o["x"],X); auto f=table(o["f"],o["log"].i); double*ff=own(f); double r=o["r"].i*T; int k; bool al=o["alloc"].i;
        if(o["obj"].i>=0)k=d->InsertMomentumSpaceDistribution(r,(NumericMomentumSpaceDistributionFunction*)at(o["obj"].i).d);
        else if(o["log"].i)k=d->InsertMomentumSpaceDistributionLog(p.size(),xi.size(),r,own(p),own(xi),ff,im(o),al);
        else k=d->InsertMomentumSpaceDistribution(p.size(),xi.size(),r,own(p),own(xi),ff,im(o));
        if(al||!o["log"].i)for(size_t i=0;i<f.size();i++)if(memcmp(ff+i,&f[i],8))return J("changed");
        return J(k); }
    if(op=="ext"){((NumericDistributionFunction*)at(id).d)->SetExtrapolationPermission(o["v"].i);return J("ok");}
    if(op=="flip2"){auto*q=(NumericMomentumSpaceDistributionFunction*)at(id).d; if(o["v"].i)q->FlipPitchSign(); else q->FlipPitchSign(false);return J("ok");}
    if(op=="flip3"){((NumericDistributionFunction*)at(id).d)->FlipPitchSign(o["v"].i);return J("ok");}
    if(op=="clone"){Obj&s=at(o["from"].i); x.norm=s.norm; if(s.d){x.d=s.d->MinClone();}else x.p=s.p->MinClone(); pool[id]=x; return J("ok");}
    if(op=="prof"){ string k=o["kind"].s; x.norm=1; double a=o["a"].i*T,b=o["b"].i*T;
        if(k=="linear")x.p=new LinearRadialProfile(a,b); else if(k=="power")x.p=new PowerRadialProfile(a,b,num(o["e"])); else if(k=="bessel")x.p=new BesselRadialProfile(a,b);
        else if(k=="gauss")x.norm=T/0.25,x.p=new GaussianRadialProfile(a,b,num(o["g"].a[0])*T,num(o["g"].a[1])*T,num(o["g"].a[2])*T); else if(k=="uniform")x.p=new UniformRadialProfile(); else _Exit(96);
        pool[id]=x; return J("ok"); }
    if(op=="prod"){ auto*m=(MomentumSpaceDistributionFunction*)at(o["m"].i).d; int p=o["p"].i; string how=o["how"].s; x.norm=at(o["m"].i).norm; if(p>=0)x.norm*=at(p).norm;
        if(p<0)x.d=m->ToRadialDistribution(); else if(how=="to")x.d=m->ToRadialDistribution(at(p).p); else if(how=="ctor")x.d=new RadialDistributionFunction(at(p).p,m); else {auto*q=new RadialDistributionFunction();q->Initialize(at(p).p,m);x.d=q;}
        pool[id]=x; return J("ok"); }
    if(op=="evalp"){ double v=at(id).p->Eval(o["r"].i*T,o["ds"].i*T); string k=o["kind"].s; if(k=="bessel")return fabs(v)<2?J((long long)nearbyint(v*1e6)):J(2000000001LL);
        if(k=="gauss"){ if(v==0)return J("zero"); double c=o["c"].i, a=o["ga"].i*T; return outv(-log(v/a)*c*c,1); } return outv(v); }
    if(op=="eval2"){ auto*m=(MomentumSpaceDistributionFunction*)at(id).d; double n=at(id).norm; if(o["how"].s=="four")return outv(((DistributionFunction*)m)->Eval(3,o["p"].i*T,o["x"].i*X,0.5)/n); return outv(m->Eval(o["p"].i*T,o["x"].i*X)/n); }
    if(op=="eval3"){ double n=at(id).norm; auto*d=at(id).d; if(o["ds"].i==0&&o["how"].s=="short")return outv(d->Eval(o["r"].i*T,o["p"].i*T,o["x"].i*X)/n); return outv(d->Eval(o["r"].i*T,o["p"].i*T,o["x"].i*X,o["ds"].i*T)/n); }
    if(op=="load"){ string name="f"+to_string(id)+"."+o["file"]["ext"].s; unlink(name.c_str()); writeFile(o["file"],name);
        MF*mf=o["ax"].i==0&&o["lay"].s!="luke"&&o["lay"].s!="gocode"?nullptr:new MF(o["ax"].i*T,o["w"].i*T); string lay=o["lay"].s; bool lg=o["log"].i; int it=im(o); bool dflt=lg&&o["cub"].i;
        struct Rm{string n;~Rm(){unlink(n.c_str());}} rm{name};
        if(lay=="soft"){ if(dflt&&o["rad"].i==0)x.d=SOFTDistributionFunction::LoadMomentumSpace(name,mf); else if(o["rad"].i>=0)x.d=SOFTDistributionFunction::LoadMomentumSpace(name,mf,lg,o["rad"].i,it); else if(dflt)x.d=new SOFTDistributionFunction(name,mf); else x.d=new SOFTDistributionFunction(name,mf,lg,it); }
        else if(lay=="depr"){ if(dflt&&o["rad"].i==0)x.d=deprSOFTDistributionFunction::LoadMomentumSpace(name,mf); else if(o["rad"].i>=0)x.d=deprSOFTDistributionFunction::LoadMomentumSpace(name,mf,lg,o["rad"].i,it); else if(dflt)x.d=new deprSOFTDistributionFunction(name,mf); else x.d=new deprSOFTDistributionFunction(name,mf,lg,it); }
        else if(lay=="luke"){ if(dflt&&o["rad"].i==0)x.d=LUKEDistributionFunction::LoadMomentumSpace(name,mf); else if(o["rad"].i>=0)x.d=LUKEDistributionFunction::LoadMomentumSpace(name,mf,lg,o["rad"].i,it); else if(dflt)x.d=new LUKEDistributionFunction(name,mf); else x.d=new LUKEDistributionFunction(name,mf,lg,it); }
        else if(lay=="dream"&&!lg&&!o["cub"].i&&o["time"].i==-1&&o["dist"].s.empty()){ if(mf)x.d=new DREAMDistributionFunction(name,mf); else x.d=new DREAMDistributionFunction(name); }
        else if(lay=="dream")x.d=new DREAMDistributionFunction(name,mf,o["dist"].s,o["time"].i,lg,it);
        else if(lay=="code"){ x.norm=U*code_norm(o); if(o["how"].s=="file"&&o["time"].i==-1&&o["path"].s.empty()&&o["it"].s=="linear")x.d=new CODEDistributionFunction(name); else if(o["how"].s=="file")x.d=new CODEDistributionFunction(name,o["time"].i,codeInt(o),o["path"].s); else {SFile*sf=SFile::Create(name,SFILE_MODE_READ);x.d=new CODEDistributionFunction(sf,o["time"].i,codeInt(o),o["path"].s);sf->Close();} }
        else if(lay=="gocode"){ x.norm=U*code_norm(o); x.d=new GOCODEDistributionFunction(name,mf,o["time"].i,codeInt(o)); }
        else _Exit(96);
        pool[id]=x; return J("ok"); }
    if(op=="togrid"){ Obj&s=at(o["from"].i); x.norm=s.norm; x.d=((CODEDistributionFunction*)s.d)->ToMomentumSpace(o["log"].i,o["theta"].i,o["n"].i); pool[id]=x; return J("ok"); }
    if(op=="del"){ delete at(id).d; pool.erase(id); return J("ok"); }
    if(op=="agree"){ Obj&a=at(id),&b=at(o["from"].i); double n=a.norm;      // points in eighths of a tick
        auto ev=[&](Obj&q,const vector<J>&c,bool&exc){ exc=false; double r=c[0].i*T/8,p=c[1].i*T/8,xi=c[2].i*X/8,ds=c[3].i*T/8; try{ return q.p?q.p->Eval(r,ds):q.d->Eval(r,p,xi,ds)/n; }catch(SOFTLibException&){exc=true;return 0.0;} };
        for(auto&c:o["pts"].a){ bool e1,e2; double u=ev(a,c.a,e1),v=ev(b,c.a,e2); if(e1!=e2)return J("differ"); if(!e1&&!(u==v)&&!(std::isnan(u)&&std::isnan(v))&&!(fabs(u-v)<=1e-9*max(fabs(u),fabs(v))))return J("differ"); }
        return J("same"); }
    if(op=="kind"){ return J("ok"); }
    _Exit(96);
}
void runCase(const J&c){
    pool.clear(); T=c.has("scale")?num(c["scale"]):0.25; X=c.has("xscale")?num(c["xscale"]):0.25; U=c.has("unit")?num(c["unit"]):1;
    for(auto&o:c["ops"].a){ J e=o,ret; try{ret=step(o);}catch(SOFTLibException&){ret=J("exc"); if(o["op"].s=="ins3")pool.erase(o["id"].i);}catch(Gone&){ret=J("gone");}
        bool n=ret.t==J::INT; emit(e.set("ret",n?J("num"):ret).set("val",n?ret:J(0))); }
    for(auto*k:keep)delete k; keep.clear();
}
