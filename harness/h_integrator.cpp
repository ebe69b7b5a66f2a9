// Driver for the Runge-Kutta integrator (N01): programs over a pool of integrators of dimension 1..3.
#include "hcommon.h"
#include <algorithm>
#include <cmath>
#include <numeric>
#include <limits>
#include <map>
#include <memory>
#include <vector>
#include <softlib/SOFTLibException.h>
#include <softlib/GeneralEquation.h>
#include <softlib/IntegratorEquation.h>
#include <softlib/RKDP45.h>
using namespace std;
static double num(const J&j){return (double)j.a[0].i/(double)j.a[1].i;}
static J rat(double x){     // a simple fraction, or 0/0
    J r=J::arr();
    if(x==0)return r.push(0).push(1);
    if(isfinite(x)) for(long f:{1L,5L,25L,125L,3L,9L,27L}) for(long p=1;p<=8192;p*=2){ double n=x*(double)f*(double)p,k=round(n); if(fabs(k)>=1&&fabs(k)<1e9&&fabs(n-k)<=4e-12*fabs(k)){
        long long a=(long long)k,b=f*p; long long g=std::gcd(a<0?-a:a,b); return r.push(a/g).push(b/g);} }
    return r.push(0).push(0);
}
static long long micro(double x){ if(!(fabs(x)<2000.0))return -2000000001LL; return llround(floor(x*1e6+1e-3)); }
static long long tmicro(double x){ if(!(x>=0&&x<1999.0))return -1; return llround(x*1e6); }
struct Base{ virtual ~Base(){} virtual void op(const J&o,J&e)=0; };
template<unsigned int N> struct Eq:public IntegratorEquation<N>{
    string k; vector<vector<double>> c,M; bool win=false,nan=false; double lo=0,hi=0; vector<double> ts; static Eq<N>*cur; unique_ptr<GeneralEquation<N>> ge;
    static Vector<N>&viaPointer(const slibreal_t t,const Vector<N>&y,Vector<N>&o){return cur->Evaluate(t,y,o);}
    Vector<N>&Evaluate(const slibreal_t t,const Vector<N>&y,Vector<N>&o)override{
        if(ts.size()<20000)ts.push_back(t); double r[N];
        for(unsigned i=0;i<N;i++){
            if(k=="poly"){ double v=0; for(size_t j=c[i].size();j-->0;)v=v*t+c[i][j]; if(win&&t>lo&&t<hi)v=nan?numeric_limits<double>::quiet_NaN():1e30; r[i]=v; }
            else if(k=="lin"){ r[i]=0; for(unsigned j=0;j<N;j++)r[i]+=M[i][j]*y[j]; }
            else if(k=="ric")r[i]=-y[i]*y[i];
            else r[i]=y[i]/(1+t);
        }
        for(unsigned i=0;i<N;i++)o[i]=r[i];
        return o;
    }
};
template<unsigned int N> Eq<N>*Eq<N>::cur=nullptr;
template<unsigned int N> struct Obj:public Base{
    RKDP45<N> rk; vector<unique_ptr<Eq<N>>> eqs; struct P{double t,y[N],d[N];}; vector<P> pts; double last=0;
    Obj(double tol):rk(tol){}
    P at(unsigned i){P p; p.t=rk.TimeAt(i); for(unsigned j=0;j<N;j++){p.y[j]=rk.SolutionAt(i)[j];p.d[j]=rk.DerivativeAt(i)[j];} return p;}
    static bool eqd(double a,double b){return memcmp(&a,&b,sizeof a)==0;}
    static bool eqp(const P&a,const P&b){bool r=eqd(a.t,b.t); for(unsigned j=0;j<N;j++)r=r&&eqd(a.y[j],b.y[j])&&eqd(a.d[j],b.d[j]); return r;}
    bool kept(){ if(rk.StepsTaken()<pts.size())return false; for(size_t i=0;i<pts.size();i++)if(!eqp(at(i),pts[i]))return false; return true; }
    bool same(){ unsigned n=rk.StepsTaken(); if(!n)return false; P p=at(n-1); bool r=eqd(p.t,rk.LastTime()); for(unsigned j=0;j<N;j++)r=r&&eqd(p.y[j],rk.LastSolution()[j])&&eqd(p.d[j],rk.LastDerivative()[j]); return r; }
    J vec(const double*v){J r=J::arr(); for(unsigned j=0;j<N;j++)r.push(micro(v[j])); return r;}
    double tq(const J&q){ unsigned n=pts.size(); if(n<2)return pts[0].t+num(q["f"]); int i=q["i"].i; long a=q["f"].a[0].i,b=q["f"].a[1].i;
        if(b==1&&i+a>=0&&i+a<(long)n)return pts[i+a].t; return pts[i].t+num(q["f"])*(pts[i+1].t-pts[i].t); }
    J clampq(const J&q){ J r=q; int i=q["i"].i,n=pts.size(); if(i>n-2)i=n-2; if(i<0)i=0; if(q["f"].a[0].i<0)i=0; if(q["f"].a[0].i>q["f"].a[1].i)i=n<2?0:n-2; r.set("i",i); return r; }
    void op(const J&o,J&e)override{ string op=o["op"].s; if(!eqs.empty())Eq<N>::cur=eqs.back().get();
        if(op=="eq"){ const J&q=o["eq"]; eqs.emplace_back(new Eq<N>()); Eq<N>&E=*eqs.back(); E.k=q["k"].s;
            if(q.has("c"))for(auto&row:q["c"].a){E.c.emplace_back();for(auto&x:row.a)E.c.back().push_back(x.i);}
            if(q.has("M"))for(auto&row:q["M"].a){E.M.emplace_back();for(auto&x:row.a)E.M.back().push_back(x.i);}
            if(q.has("win")&&q["win"].a.size()){E.win=true;E.lo=num(q["win"].a[0]);E.hi=num(q["win"].a[1]);E.nan=q["nan"].i;}
            if(q.has("ptr")){E.ge.reset(new GeneralEquation<N>(Eq<N>::viaPointer));rk.SetEquation(E.ge.get());}else rk.SetEquation(&E); e.set("ret",string("ok"));
        }else if(op=="init"){ Vector<N> y; for(unsigned i=0;i<N;i++)y[i]=o["y"].a[i].i; rk.InitialValue(y); pts.clear(); e.set("count",(long long)rk.StepsTaken()).set("same",J(same())); pts.push_back(at(0)); last=0;
            e.set("ret",string("ok")).set("t",rat(pts[0].t)).set("v",vec(pts[0].y)).set("d",vec(pts[0].d));
        }else if(op=="step"){ if(!eqs.empty())eqs.back()->ts.clear(); double T0=pts.empty()?0:pts.back().t,T=0; string ret="ok";
            try{T=rk.Step();}catch(SOFTLibException&){ret="exc";}
            // attempts: the sampled times start anew whenever they go back
            vector<double> reach; double prev=0; if(!eqs.empty())for(double t:eqs.back()->ts){ if(reach.empty()||t<prev)reach.push_back(t); else reach.back()=max(reach.back(),t); prev=t; }
            J att=J::arr(),ratio=J::arr(); bool cut=false; double p=last;
            for(size_t i=0;i<reach.size();i++){ double h=reach[i]-T0; if(i>=40){cut=true;p=0;continue;}
                att.push(rat(h)); bool good=p>0&&h>0&&h>1e-8*fabs(T0)&&p>1e-8*fabs(T0)&&h>1e-290; ratio.push(good&&h/p<1999?(long long)llround(h/p*1e6):-1LL); p=h; }
            if(att.a.empty()){att.push(rat(T-T0));ratio.push(-1LL);}
            last=ret=="ok"?p:0; if(ret=="exc")cut=false;
            e.set("ret",ret).set("att",att).set("ratio",ratio).set("cut",J(cut)).set("kept",J(kept())).set("count",(long long)rk.StepsTaken());
            if(ret=="ok"){ e.set("same",J(same())); unsigned n=rk.StepsTaken(); P q=at(n-1); e.set("inc",J(T>T0&&eqd(T,q.t))).set("t",rat(T)).set("tus",tmicro(T)).set("v",vec(q.y)).set("d",vec(q.d)); while(pts.size()<n)pts.push_back(at(pts.size())); }
        }else if(op=="many"){ bool inc=true; for(long i=0;i<o["k"].i;i++){ eqs.back()->ts.clear(); double a=rk.LastTime(),b=rk.Step(); inc=inc&&b>a; pts.push_back(at(rk.StepsTaken()-1)); }
            last=1; P q=at(rk.StepsTaken()-1); e.set("ret",string("ok")).set("inc",J(inc)).set("kept",J(kept())).set("same",J(same())).set("count",(long long)rk.StepsTaken()).set("t",rat(q.t)).set("v",vec(q.y));
        }else if(op=="toggle"){ rk.ToggleDenseOutput(o["on"].i); e.set("ret",string("ok")).set("res",J(rk.HasDenseOutput()));
        }else if(op=="dense"){ J qs=J::arr(); vector<double> t; if(pts.empty())_Exit(96); for(auto&q:o["q"].a){J c=clampq(q);qs.push(c);t.push_back(tq(c));} e.set("q",qs);
            size_t n=t.size(); double*tt=new double[n],*out=new double[n*N]; for(size_t i=0;i<n;i++)tt[i]=t[i]; string ret="ok";
            try{rk.OutputDense(n,tt,out);}catch(SOFTLibException&){ret="exc";}
            J r=J::arr(),tu=J::arr(); if(ret=="ok")for(size_t i=0;i<n;i++){r.push(vec(out+i*N));tu.push(tmicro(t[i]));} delete[]tt; delete[]out;
            e.set("ret",ret).set("out",r).set("tus",tu).set("kept",J(kept()));
        }else if(op=="range"){ J a=clampq(o["a"]),b=clampq(o["b"]); e.set("a",a).set("b",b); double ta=tq(a),tb=tq(b); size_t n=o["nt"].i; double*tt=new double[n],*out=new double[n*N]; string ret="ok";
            try{rk.OutputDense(n,ta,tb,out,tt);}catch(SOFTLibException&){ret="exc";}
            J r=J::arr(),tu=J::arr(); if(ret=="ok")for(size_t i=0;i<n;i++){r.push(vec(out+i*N));tu.push(tmicro(tt[i]));}
            e.set("ret",ret).set("out",r).set("tus",tu).set("ends",J(ret!="ok"||n==0||(eqd(tt[0],ta)&&eqd(tt[n-1],tb)))); delete[]tt; delete[]out;
        }else _Exit(96);
    }
};
template<unsigned int N> Base*make(const J&o){ auto*x=new Obj<N>(num(o["tol"])); auto&r=x->rk;
    if(!o.has("plain")){r.SetMinScaleFactor(num(o["min"]));r.SetMaxScaleFactor(num(o["max"]));}
    if(o["flat"].i){r.SetSafetyFactor(num(o["safe"]));r.SetExponentAlpha(0);} if(o.has("beta"))r.SetExponentBeta(num(o["beta"])); return x; }
void runCase(const J&c){
    map<int,unique_ptr<Base>> m;
    for(auto&o:c["ops"].a){ J e=o; string op=o["op"].s; int id=o["id"].i;
        if(op=="new"){ int n=o["n"].i; m[id].reset(n==1?make<1>(o):n==2?make<2>(o):make<3>(o)); e.set("ret",string("ok")); }
        else m[id]->op(o,e);
        emit(e);
    }
}
