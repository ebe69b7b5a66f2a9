// Driver for peaked integration (Q01).
#include "hcommon.h"
#include <cmath>
#include <functional>
#include <vector>
#include <softlib/SOFTLibException.h>
#include <softlib/Integration/PeakedIntegration.h>
using namespace std;
typedef function<slibreal_t(slibreal_t)> Fn;
void runCase(const J&c){
    PeakedIntegration pi;
    for(auto&o:c["ops"].a){ J e=o; string op=o["op"].s; string ret="ok";
        try{
            if(op=="sum"||op=="zero"){
                double h=(double)o["hn"].i/o["hd"].i, x0=(double)o["xn"].i/8; vector<long long> t; for(auto&v:o["f"].a)t.push_back(v.i);
                Fn f=[&](slibreal_t x)->slibreal_t{ double k=(x-x0)/h; long long i=llround(k); if(fabs(k-i)>1e-9)return 1e6; return i>=1&&i<=(long long)t.size()?t[i-1]:(o.has("out")?o["out"].i:0); };
                auto lim=[&](long long i,bool up)->double{ if(o.has("inf")&&(up?i>(long long)t.size():i<1))return up?INFINITY:-INFINITY; return x0+h*(i+(o.has("frac")?(up?-.25:.25):0)); };
                double a=lim(o["lo"].i,false),b=lim(o["hi"].i,true);
                double m=x0+h*o["p"].i; double r=pi.Evaluate(f,a,b,op=="zero"?0.0:h,(double)o["cn"].i/o["cd"].i,m,f(m));
                double u=2*r/h; long long k=llround(u); e.set("res",fabs(u-k)<1e-7&&fabs(u)<1e9?k:-1LL);
            }else if(op=="max"){ double r=o["r"].i*1e-6,up=o["up"].i,dn=o["dn"].i; int sh=o["shape"].i;
                Fn f=[&](slibreal_t x)->slibreal_t{ double d=x<r?(r-x)*up:(x-r)*dn; return sh==0?-d:sh==1?1/(1+d*d):exp(-d); };
                double m=o["tol"].i==10000&&o.has("dflt")?pi.FindMaximum(f):pi.FindMaximum(f,o["tol"].i*1e-6); e.set("dist",(long long)ceil(fabs(m-r)*1e6-1e-3));
            }else if(op=="auto"){ double r=o["r"].i*1e-6,w=o["w"].i*1e-3,h=o["h"].i*1e-3,cut=o["cut"].i*1e-3,a=o["a"].i*1e-3,b=o["b"].i*1e-3;
                Fn f=[&](slibreal_t x)->slibreal_t{return exp(-(x-r)*(x-r)/(w*w));};
                double m=pi.FindMaximum(f); double u=pi.Evaluate(f,a,b,h,cut),v=pi.Evaluate(f,a,b,h,cut,m,f(m)); e.set("same",J(u==v&&isfinite(u)));
            }else _Exit(96);
        }catch(SOFTLibException&){ret="exc";}
        e.set("ret",ret); emit(e);
    }
}
