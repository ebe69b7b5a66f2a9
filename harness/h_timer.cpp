// Driver for timers and time formatting (G02, G03), on a controlled clock.
#include "vclock.h"
#include "hcommon.h"
#include <softlib/Timer.h>
#include <softlib/ProgressTracker.h>
using namespace std;
using namespace std::chrono;
#define NT 3
static Timer*tm_[NT+1];
static J two(long long ns){return J::arr().push(ns/1000000000LL).push(ns%1000000000LL);}
static long long dur(const J&j){return j.a[0].i*1000000000LL+j.a[1].i;}
static J L(long long v){return J(v);}
static J read(Timer*t){
    Timer::time s=t->GetTimeStruct(); Timer::time s1=s,s2=s,s3=s; J r=J::obj();
    long long us=s.tp.count();
    r.set("days",L(s.days.count())).set("hours",L(s.hours.count())).set("minutes",L(s.minutes.count())).set("seconds",L(s.seconds.count())).set("ms",L(s.milliseconds.count())).set("us",L(s.microseconds.count()))
     .set("tp",J::arr().push(us/1000000).push(us%1000000)).set("tsec",L(s.total_sec.count()));
    auto ms=[&](double v){long long x=(long long)v; return (double)x==v?J::arr().push(x/1000).push(x%1000):J::arr().push(-1).push(-1);};
    auto mu=[&](double v){long long x=(long long)v; return (double)x==v?J::arr().push(x/1000000).push(x%1000000):J::arr().push(-1).push(-1);};
    r.set("gms",J::arr().push(ms(t->GetMilliseconds())).push(ms(Timer::GetMilliseconds(s1)))).set("gus",J::arr().push(mu(t->GetMicroseconds())).push(mu(Timer::GetMicroseconds(s2))))
     .set("text",J::arr().push(t->ToString()).push(Timer::ToString(s3)));
    return r;
}
static string strip(const string&s){string r;for(size_t i=0;i<s.size();i++){if(s[i]=='\x1B'){while(i<s.size()&&s[i]!='m')i++;continue;}r+=s[i];}return r;}
void runCase(const J&c){
    for(auto&x:tm_)x=nullptr; g_now=1000000000LL*(1700000000LL+g_case%1000);
    const int64_t base=g_now;
    for(auto&o:c["ops"].a){ J e=o; string op=o["op"].s; int t=o.has("t")?o["t"].i:0;
        if(op=="new")tm_[t]=new Timer();
        else if(op=="adv")g_now+=dur(o["d"]);
        else if(op=="reset")tm_[t]->Reset();
        else if(op=="stop")tm_[t]->Stop();
        else if(op=="cont")tm_[t]->Continue();
        else if(op=="copy"){delete tm_[t];tm_[t]=new Timer(*tm_[o["t2"].i]);}
        else if(op=="assign")*tm_[t]=*tm_[o["t2"].i];
        else if(op=="destroy"){delete tm_[t];tm_[t]=nullptr;}
        else if(op=="read")e.set("res",read(tm_[t]));
        else if(op=="clock")e.set("res",two(duration_cast<nanoseconds>(tm_[t]->GetClock().time_since_epoch()).count()-base));
        else if(op=="fmt"){ long long ms=o["s"].i*1000+o["ms"].i; ProgressTracker p(10,1,ProgressTracker::PROGRESS_LINES); J r=J::arr();
            int u=o["unit"].i; if(u==0){r.push(p.TimeString(ms));r.push(strip(p.TimeString(ms,true)));}
            else{r.push(p.TimeString(ms,false,(ProgressTracker::TimeUnit)u));r.push(strip(p.TimeString(ms,true,(ProgressTracker::TimeUnit)u)));}
            e.set("res",r);}
        else _Exit(96);
        emit(e);
    }
    for(auto&x:tm_){delete x;x=nullptr;}
}
