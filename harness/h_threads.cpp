// Driver for threads (T01): several objects of one kind (an original and its clones, or separate ones) used by
// one thread each: alone, in turns, and all at once. Answers are digests of everything a call returned.
// Arguments are whole numbers; built with the thread sanitizer.
#include "hcommon.h"
#include <atomic>
#include <cmath>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_interp2d.h>
#include <gsl/gsl_spline2d.h>
#include <softlib/SFile.h>
#include <softlib/SFile_SDT.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/IntegratorEquation.h>
#include <softlib/RKDP45.h>
#include <softlib/Vector.h>
#include <softlib/Matrix.h>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/Integration/PeakedIntegration.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
using namespace std;
// The interpolation library is not instrumented: tell the sanitizer that a look-up writes to the accelerator it is given
static inline void touch(gsl_interp_accel*a){ if(a)a->miss_count++; }
template<class F> static F next(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
#define W2(NAME,S) double NAME(const S*s,const double x,const double y,gsl_interp_accel*xa,gsl_interp_accel*ya){ static const auto f=next<double(*)(const S*,double,double,gsl_interp_accel*,gsl_interp_accel*)>(#NAME); touch(xa); touch(ya); return f(s,x,y,xa,ya); }
W2(gsl_spline2d_eval,gsl_spline2d) W2(gsl_spline2d_eval_deriv_x,gsl_spline2d) W2(gsl_spline2d_eval_deriv_y,gsl_spline2d) W2(gsl_spline2d_eval_extrap,gsl_spline2d)
#define W3(NAME) double NAME(const gsl_interp2d*s,const double*X,const double*Y,const double*Z,const double x,const double y,gsl_interp_accel*xa,gsl_interp_accel*ya){ static const auto f=next<double(*)(const gsl_interp2d*,const double*,const double*,const double*,double,double,gsl_interp_accel*,gsl_interp_accel*)>(#NAME); touch(xa); touch(ya); return f(s,X,Y,Z,x,y,xa,ya); }
W3(gsl_interp2d_eval) W3(gsl_interp2d_eval_extrap)
double gsl_interp_eval(const gsl_interp*s,const double*X,const double*Y,double x,gsl_interp_accel*a){ static const auto f=next<double(*)(const gsl_interp*,const double*,const double*,double,gsl_interp_accel*)>("gsl_interp_eval"); touch(a); return f(s,X,Y,x,a); }
}
struct Digest{ unsigned long long h=1469598103934665603ULL;
    void raw(const void*p,size_t n){ for(size_t i=0;i<n;i++){h^=((const unsigned char*)p)[i];h*=1099511628211ULL;} }
    Digest&operator<<(double d){ if(d!=d)d=NAN; if(d==0)d=0; raw(&d,sizeof d); return *this; }
    Digest&operator<<(const string&s){ raw(s.data(),s.size()); unsigned char z=255; raw(&z,1); return *this; }
    Digest&v(const double*p,int n){ for(int i=0;i<n;i++)*this<<p[i]; return *this; }
    string str()const{ char b[20]; snprintf(b,sizeof b,"%08llx",(h^(h>>32))&0xffffffffULL); return b; } };
struct Obj{ virtual ~Obj(){} virtual void ask(int q,const vector<double>&a,Digest&d)=0; virtual void set(int v){(void)v;} virtual Obj*clone()=0; };
static double*lin(double a,double b,int n){ double*x=new double[n]; for(int i=0;i<n;i++)x[i]=a+(b-a)*i/(n-1); return x; }
static double*tab(int n,int seed,bool pos=false){ double*x=new double[n]; unsigned s=seed*2654435761u+12345; for(int i=0;i<n;i++){ s=s*1664525u+1013904223u; x[i]=(int)(s>>24)/16.0+(pos?0.25:-6); } return x; }
// magnetic fields: points are in thousandths
struct Field:Obj{ MagneticField2D*m; explicit Field(MagneticField2D*m):m(m){} ~Field(){delete m;}
    void ask(int q,const vector<double>&a,Digest&d)override{ double x=a[0]/1e3,y=a[1]/1e3,z=a[2]/1e3;
        if(q==0)d.v(m->Eval(x,y,z),3); else if(q==1){auto&g=m->EvalDerivatives(x,y,z); d.v(g.B,3).v(g.gradB,3).v(g.curlB,3)<<g.Babs; for(int i=0;i<3;i++)d.v(g.J[i],3);}
        else if(q==2)d<<(m->HasMagneticFlux()?m->EvalFlux(x,y,z):-1); else if(q==3){ if(m->HasMagneticFlux()){auto*f=m->EvalFluxDerivatives(x,y,z); d<<f->psi<<f->dpsi_dR<<f->dpsi_dZ;} }
        else if(q==4)d<<(double)m->CrossesDomain(x,y,z,a[3]/1e3,a[4]/1e3,a[5]/1e3); else if(q==5)d<<(double)m->IntersectsDomain3D(x,y,z,a[3]/1e3,a[4]/1e3,a[5]/1e3);
        else if(q==6){ d<<m->GetMaxRadius()<<m->GetMinRadius(); double b[4]; m->GetDomainBounds(b[0],b[1],b[2],b[3]); d.v(b,4); }
        else if(q==7){ d<<m->GetName()<<m->GetDescription()<<m->GetMagneticAxisR()<<m->GetMagneticAxisZ(); d.v(m->GetRDomain(),m->GetNDomain()).v(m->GetZDomain(),m->GetNDomain()); }
        else if(q==8){ Vector<3> p; p[0]=x;p[1]=y;p[2]=z; d.v(m->Eval(p),3); auto&g=m->EvalDerivatives(p); d.v(g.curlB,3); } }
    void set(int v)override{ if(auto*f=dynamic_cast<MagneticFieldAnalytical2D*>(m))f->SetB0(1+v); }
    Obj*clone()override{return new Field(m->Clone());} };
static Obj*numfield(int s){ int n=6+s%5,k=5+s%4; double R0=1+s%3; double*rw=new double[5],*zw=new double[5]; double r4[]={1.1,2.9,2.9,1.1,1.1},z4[]={-.8,-.8,.8,.8,-.8}; for(int i=0;i<5;i++){rw[i]=R0-1+r4[i];zw[i]=z4[i];}
    double*rs=nullptr,*zs=nullptr; int ns=0; if(s%2){ns=5;rs=new double[5];zs=new double[5];for(int i=0;i<5;i++){rs[i]=R0+1+(rw[i]-R0-1)*.8;zs[i]=zw[i]*.8;}}
    return new Field(new MagneticFieldNumeric2D("field"+to_string(s),"for threads",lin(R0,R0+2,n),lin(-1,1,k),n,k,tab(n*k,s),tab(n*k,s+1,true),tab(n*k,s+2),s%3?tab(n*k,s+3):nullptr,R0+1,0,rs,zs,ns,rw,zw,5)); }
static Obj*anafield(int s){ enum MFASafetyFactorType t[]={MFASF_CONSTANT,MFASF_LINEAR,MFASF_QUADRATIC,MFASF_EXPONENTIAL,MFASF_CURRENT}; return new Field(new MagneticFieldAnalytical2D(1+s%4,2+s%2,.25*(s%3),.5+.25*(s%2),s%2?MFAFS_CW:MFAFS_CCW,s%3?MFAFS_CW:MFAFS_CCW,t[s%5],1+s%2,2,"an","alytical")); }
// distribution functions: arguments in thousandths
struct Dist:Obj{ DistributionFunction*d; bool mine; explicit Dist(DistributionFunction*d):d(d),mine(false){}
    void ask(int q,const vector<double>&a,Digest&o)override{ double r=a[0]/1e3,p=a[1]/1e3,x=a[2]/1e3,ds=a[3]/1e3; auto*m=dynamic_cast<MomentumSpaceDistributionFunction*>(d);
        if(q%2==0&&m)o<<m->Eval(p,x); else if(q%3==0)o<<d->Eval(r,p,x); else o<<d->Eval(r,p,x,ds); }
    void set(int v)override{ if(auto*n=dynamic_cast<NumericMomentumSpaceDistributionFunction*>(d))n->FlipPitchSign(v&1);
        else if(auto*n=dynamic_cast<NumericDistributionFunction*>(d)){n->SetExtrapolationPermission(v&1); if(v&2)n->FlipPitchSign((v>>2)&1);} }
    Obj*clone()override{return new Dist(d->MinClone());} };
static NumericMomentumSpaceDistributionFunction*grid2(int s){ auto*m=new NumericMomentumSpaceDistributionFunction(); int np=4+s%5,nx=4+s%3; typedef NumericMomentumSpaceDistributionFunction N; int it=s%2?N::INTERPOLATION_CUBIC:N::INTERPOLATION_LINEAR;
    double*f=tab(np*nx,s,true); if(s%3==2)m->InitializeLog(np,nx,lin(0,4,np),lin(-1,1,nx),f,it); else m->Initialize(np,nx,lin(0,4,np),lin(-1,1,nx),f,it); return m; }
static Obj*dist3(int s){ auto*d=new NumericDistributionFunction(); int n=1+s%4; for(int i=0;i<n;i++)d->InsertMomentumSpaceDistribution(1+.5*i,grid2(s+6*i)); d->SetExtrapolationPermission(s%2); return new Dist(d); }
static Obj*code(int s){ typedef CODEDistributionFunction C; int its[]={C::INTERPOLATION_LINEAR,C::INTERPOLATION_CSPLINE,C::INTERPOLATION_AKIMA,C::INTERPOLATION_STEFFEN,C::INTERPOLATION_POLYNOMIAL}; auto*c=new C(); int np=6+s%3,nl=1+s%4; c->Initialize(np,nl,lin(0,4,np),tab(np*nl,s,true),its[s%5]); return new Dist(c); }
static MomentumSpaceDistributionFunction*closed(int s){ switch(s%4){ case 0:{auto*a=new AnalyticalAvalanche();a->Initialize(2+s%3,15,1+s%2);return a;} case 1:{auto*a=new ConnorHastieDistribution();a->Initialize(2+s%3,1+s%2,3,.5);return a;} case 2:{auto*a=new ExponentialPitch();a->Initialize(1+s%5);return a;} } return new UnitDistributionFunction(); }
static Obj*radial(int s){ RadialProfile*p; switch(s%5){case 0:p=new LinearRadialProfile(.5,2);break;case 1:p=new PowerRadialProfile(.5,2,1+s%3);break;case 2:p=new BesselRadialProfile(.5,2);break;case 3:p=new GaussianRadialProfile(.5,2,1,1,.5);break;default:p=new UniformRadialProfile();}
    return new Dist(new RadialDistributionFunction(p,s%2?(MomentumSpaceDistributionFunction*)grid2(s):closed(s/2))); }
// integrators
struct Integ:Obj{ struct Eq:IntegratorEquation<2>{ double w; Vector<2>&Evaluate(const slibreal_t t,const Vector<2>&y,Vector<2>&o)override{ double a=y[0],b=y[1]; o[0]=w*b+t; o[1]=-w*a; return o; } }; Eq eq; RKDP45<2> rk; int s;
    explicit Integ(int s):rk(1e-6),s(s){ eq.w=1+s%3; rk.SetEquation(&eq); rk.ToggleDenseOutput(true); Vector<2> y; y[0]=1+s%2; y[1]=0; rk.InitialValue(y); }
    void ask(int q,const vector<double>&a,Digest&d)override{ if(q%3==0){ for(int i=0;i<1+(int)a[0]%4;i++)d<<rk.Step(); } else if(q%3==1||rk.StepsTaken()<2){ unsigned n=rk.StepsTaken(); d<<(double)n<<rk.LastTime(); d.v(rk.LastSolution(),2).v(rk.LastDerivative(),2); for(unsigned i=0;i<n;i++){d<<rk.TimeAt(i); d.v(rk.SolutionAt(i),2);} }
        else { vector<double> out(20),t(10); rk.OutputDense(10,rk.TimeAt(0),rk.LastTime(),out.data(),t.data()); d.v(out.data(),20).v(t.data(),10); } }
    void set(int v)override{ eq.w=1+v; } Obj*clone()override{return new Integ(s);} };
struct Quad:Obj{ PeakedIntegration pi; void ask(int q,const vector<double>&a,Digest&d)override{ double r=a[0]/4e3,w=.05+a[1]/8e3; function<slibreal_t(slibreal_t)> f=[=](slibreal_t x)->slibreal_t{return exp(-(x-r)*(x-r)/(w*w));}; if(q%2)d<<pi.FindMaximum(f); else d<<pi.Evaluate(f,-1,2,.01,1e-3,r,f(r)); } Obj*clone()override{return new Quad();} };
// configurations
struct Conf:Obj{ ConfigurationScript*c; int s; Conf(ConfigurationScript*c,int s):c(c),s(s){}
    static string text(int k){ string t="title = \"run "+to_string(k)+"\";\n# note\nn = "+to_string(k%7)+", 2, 3;\nr = 1.5e"+to_string(k%4)+";\n"; for(int i=0;i<1+k%3;i++)t+="@blk one"+to_string(i)+" {\n a = yes;\n b"+to_string(k%3)+" = "+to_string(i+k)+";\n}\n"; t+="x"+to_string(k%4)+" = 1;\n"; return t; }
    void dump(ConfigBlock*b,Digest&d){ d<<b->GetName(); for(Setting*q:b->GetAllSettings()){ d<<q->GetName()<<(double)q->GetNumberOfValues(); for(size_t i=0;i<q->GetNumberOfValues();i++)d<<q->GetString(i); d<<(double)q->Touched(); if(q->IsScalar())d<<q->GetScalar(); } for(auto*k:b->GetAllSubBlocks())dump(k,d); }
    void ask(int q,const vector<double>&a,Digest&d)override{ int k=(int)a[0]; if(k<0)k=-k;
        if(q%4==0)dump(c->GetRootBlock(),d);
        else if(q%4==1){ ConfigurationScript x; x.RegisterBlockType("@blk"); x.FromString(text(k),"t"); auto*u=c->Merge(x,k%2); if(u)for(auto&n:*u)d<<n; dump(c->GetRootBlock(),d); }
        else if(q%4==2){ Setting*z=c->GetRootBlock()->GetSetting(k%2?"n":"nothing"); d<<(double)(z!=nullptr); if(z)d<<z->GetNumericVector()[0]; }
        else { ConfigurationScript x; x.RegisterBlockType("@blk"); x.FromString(text(k)+"@blk broken { a = ;","t"+to_string(k)); d<<(double)x.HasError(); } }
    Obj*clone()override{return new Conf(new ConfigurationScript(*c),s);} };
static Obj*conf(int s){ auto*c=new ConfigurationScript(); c->RegisterBlockType("@blk"); c->FromString(Conf::text(s),"s"); return new Conf(c,s); }
// vectors and matrices; errors; text data files
struct Alg:Obj{ Vector<3> u; Matrix<3,3> M; explicit Alg(int s){ double*t=tab(12,s); for(int i=0;i<3;i++)u[i]=t[i]; for(int i=0;i<3;i++)for(int j=0;j<3;j++)M(i,j)=t[3+3*i+j]; delete[]t; }
    void ask(int q,const vector<double>&a,Digest&d)override{ Vector<3> v,w; for(int i=0;i<3;i++)v[i]=a[i]/1e3; w=u+v; w=w*2.0; w=M*w; d<<w[0]<<w[1]<<w[2]; d<<u.Dot(v)<<w.Norm(); Matrix<3,3> P=M*M; if(q%2)P=P+M; for(int i=0;i<3;i++)for(int j=0;j<3;j++)d<<P(i,j); Vector<3> c=Vector<3>::Cross(u,v); d<<c[0]<<c[1]<<c[2]; }
    void set(int v)override{ u=u+(double)v; } Obj*clone()override{return new Alg(*this);} };
struct Err:Obj{ void ask(int q,const vector<double>&a,Digest&d)override{ try{ if(q%2)throw SOFTLibException("number %d of %s, %.3f",(int)a[0],string(3+q*40,'x').c_str(),a[1]); else throw SFileException("file '%s' has %d",to_string(a[2]).c_str(),q); }catch(SOFTLibException&e){ d<<e.whats(); } } Obj*clone()override{return new Err();} };
struct Sdt:Obj{ static atomic<int> cnt; string f; int n=0; Sdt():f("t"+to_string(cnt++)+".sdt"){} ~Sdt(){remove(f.c_str());}
    void ask(int q,const vector<double>&a,Digest&d)override{ { SFile_SDT s; s.Open(f,SFILE_MODE_WRITE); double l[]={a[0],a[1],a[2]/7},*rows[]={l,l}; s.WriteList("l",l,3); s.WriteArray("m",rows,2,3); s.WriteString("t","text "+to_string(q)); s.WriteAttribute_scalar("m","x",a[3]/3); s.Close(); }
        SFile_SDT s; s.Open(f,SFILE_MODE_READ); sfilesize_t k[2]; double*x=s.GetDoubles1D("l",k); d.v(x,k[0]); delete[]x; double**y=s.GetDoubles("m",k); d<<(double)k[0]<<(double)k[1]; d.v(y[0],k[0]*k[1]); delete[]y[0]; delete[]y; d<<s.GetString("t")<<s.GetAttributeScalar("m","x")<<(double)s.HasVariable("none"); s.Close(); }
    Obj*clone()override{return new Sdt();} };
atomic<int> Sdt::cnt{0};
static Obj*make(const string&k,int s){
    if(k=="numfield")return numfield(s); if(k=="anafield")return anafield(s); if(k=="grid2")return new Dist(grid2(s)); if(k=="dist3")return dist3(s); if(k=="code")return code(s); if(k=="closed")return new Dist(closed(s)); if(k=="radial")return radial(s);
    if(k=="integ")return new Integ(s); if(k=="quad")return new Quad(); if(k=="conf")return conf(s); if(k=="alg")return new Alg(s); if(k=="err")return new Err(); if(k=="sdt")return new Sdt(); _Exit(96); }
// one object per thread: the original for the first thread and clones for the others (sep=0), clones for all (1), or separate objects (2)
static vector<Obj*> objects(const J&c){ int T=c["threads"].a.size(),sep=c["sep"].i,s=c["seed"].i; string k=c["kind"].s; vector<Obj*> v; Obj*o=nullptr; if(sep!=2)o=make(k,s);
    for(int t=0;t<T;t++)v.push_back(sep==2?make(k,s+t):sep==0&&t==0?o:o->clone()); return v; }
static string call(Obj*&o,const J&q){ Digest d; string op=q["op"].s;
    try{ if(op=="ask"){ vector<double> a; for(auto&x:q["a"].a)a.push_back(x.i); while(a.size()<6)a.push_back(0); o->ask(q["q"].i,a,d); } else if(op=="set")o->set(q["q"].i); else { Obj*n=o->clone(); delete o; o=n; } }
    catch(SOFTLibException&e){ d<<"refused"<<e.whats(); } catch(exception&e){ d<<"exception"; }
    return d.str(); }
void runCase(const J&c){
    int T=c["threads"].a.size(); auto&th=c["threads"].a;
    { J r=J::arr(); for(int t=0;t<T;t++){ J l=J::arr(); auto o=objects(c); for(auto&q:th[t].a)l.push(J(call(o[t],q))); for(auto*x:o)delete x; r.push(l); } J e=J::obj(); e.set("op",J("alone")); e.set("rets",r); emit(e); }
    { auto o=objects(c); vector<size_t> k(T,0); J l=J::arr(); for(auto&x:c["order"].a){ int t=x.i-1; J p=J::arr(); p.push(J((long long)t+1)); p.push(J(call(o[t],th[t].a[k[t]++]))); l.push(p); } for(auto*x:o)delete x; J e=J::obj(); e.set("op",J("turns")); e.set("log",l); emit(e); }
    for(int rep=0;rep<(int)c["reps"].i;rep++){ auto o=objects(c); vector<vector<string>> r(T); vector<thread> w; atomic<int> ready{0}; atomic<bool> go{false};
        for(int t=0;t<T;t++)w.emplace_back([&,t]{ ready.fetch_add(1,memory_order_relaxed); while(!go.load(memory_order_relaxed))this_thread::yield(); Obj*x=o[t]; vector<string> out; for(auto&q:th[t].a)out.push_back(call(x,q)); o[t]=x; r[t]=out; });
        while(ready.load()<T)this_thread::yield(); go.store(true,memory_order_relaxed); for(auto&x:w)x.join(); for(auto*x:o)delete x;
        J l=J::arr(); for(auto&v:r){ J a=J::arr(); for(auto&s:v)a.push(J(s)); l.push(a); } J e=J::obj(); e.set("op",J("together")); e.set("rets",l); emit(e); }
}
