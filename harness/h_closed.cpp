// Driver for the momentum distributions in closed form (A01): rational parameters, logarithms in millionths.
#include "hcommon.h"
#include <cmath>
#include <map>
#include <softlib/SOFTLibException.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
using namespace std;
static map<int,MomentumSpaceDistributionFunction*> pool; struct Gone{};
static double q(const J&a){return (double)a.a[0].i/(double)a.a[1].i;}
static J ln(MomentumSpaceDistributionFunction*m,const string&how,double p,double xi,double r){
    double f=how=="four"?((DistributionFunction*)m)->Eval(r,p,xi,.5):how=="three"?((DistributionFunction*)m)->Eval(r,p,xi):m->Eval(p,xi);
    if(dynamic_cast<AnalyticalAvalanche*>(m))f/=9.10938356e-31*299792458.0/(2*M_PI);
    double l=log(f)*1e6; return fabs(l)<2e9?J((long long)nearbyint(l)):J(2000000001LL); }
static void step(const J&o,J&e){
    string op=o["op"].s; int id=o["id"].i;
    if(op=="new"||op=="init"){ string k=o["kind"].s; MomentumSpaceDistributionFunction*m; bool pre=op=="new"&&o["how"].s=="ctor",shrt=o["how2"].s=="short"&&q(o["pm"])==0&&q(o["w"])==0;
        if(op=="init"){auto i=pool.find(id); if(i==pool.end())throw Gone(); m=i->second;}
        else if(pre)m=k=="aval"?(MomentumSpaceDistributionFunction*)new AnalyticalAvalanche(q(o["E"]),q(o["L"]),q(o["Z"])):k=="connor"?(shrt?new ConnorHastieDistribution(q(o["E"]),q(o["Z"])):new ConnorHastieDistribution(q(o["E"]),q(o["Z"]),q(o["pm"]),q(o["w"]))):(MomentumSpaceDistributionFunction*)new ExponentialPitch(q(o["C"]));
        else m=k=="aval"?(MomentumSpaceDistributionFunction*)new AnalyticalAvalanche():k=="connor"?(MomentumSpaceDistributionFunction*)new ConnorHastieDistribution():new ExponentialPitch();
        if(!pre){ if(auto*a=dynamic_cast<AnalyticalAvalanche*>(m))a->Initialize(q(o["E"]),q(o["L"]),q(o["Z"])); else if(auto*c=dynamic_cast<ConnorHastieDistribution*>(m)){if(shrt)c->Initialize(q(o["E"]),q(o["Z"]));else c->Initialize(q(o["E"]),q(o["Z"]),q(o["pm"]),q(o["w"]));} else ((ExponentialPitch*)m)->Initialize(q(o["C"])); }
        pool[id]=m; return; }
    auto i=pool.find(id); if(i==pool.end())throw Gone(); auto*m=i->second;
    if(op=="clone"){pool[(int)o["to"].i]=o["base"].i?dynamic_cast<MomentumSpaceDistributionFunction*>(((DistributionFunction*)m)->MinClone()):m->MinClone();return;}
    if(op=="del"){pool.erase(id);delete m;return;}
    double p=q(o["p"]),x=q(o["xi"]); e.set("val",ln(m,o["how"].s,p,x,1)); e.set("mirror",ln(m,o["how"].s,p,-x,7)); e.set("top",ln(m,o["how"].s,p,1,3));
}
void runCase(const J&c){
    pool.clear();
    for(auto&o:c["ops"].a){ J e=o; string ret="ok"; try{step(o,e);}catch(Gone&){ret="gone";}catch(SOFTLibException&){ret="exc";}catch(exception&){ret="other";} e.set("ret",J(ret)); emit(e); }
}
