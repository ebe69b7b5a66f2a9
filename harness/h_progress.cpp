// Driver for the progress tracker (G01): threads run one at a time; at every entry to or exit from
// a critical section and every look at the clock the schedule decides who goes on. All output to
// stdout is captured and attributed to the thread that was running.
#include "vclock.h"
#include "hcommon.h"
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <thread>
#include <vector>
#include <softlib/ProgressTracker.h>
using namespace std;
struct Th{sem_t s;bool done=false;void*want=nullptr;int id=0;};
static thread_local Th*me=nullptr;
static sem_t mainsem; static map<void*,Th*> held;
static int outfd=-1; static size_t outpos=0; static vector<pair<int,string>> *outlog;
static vector<J> *rec;
static string acc;
static void drain(int who){ // new output since last time
    fflush(stdout); cout.flush(); char b[4096]; ssize_t n;
    while((n=pread(outfd,b,sizeof b,outpos))>0){acc.append(b,n);outpos+=n;}
    size_t p; while((p=acc.find('\n'))!=string::npos){ string l=acc.substr(0,p); acc.erase(0,p+1);
        long long k=-1,np=-1; size_t q=l.find('('); J e=J::obj(); e.set("op","print").set("t",who);
        if(q!=string::npos)sscanf(l.c_str()+q,"(%lld/%lld)",&k,&np);
        e.set("k",k).set("of",np); rec->push_back(e); }
}
static void yield_(void*want=nullptr){ if(!me)return; me->want=want; drain(me->id); sem_post(&mainsem); while(sem_wait(&me->s)); me->want=nullptr; }
static void acquire(void*l){ yield_(l); held[l]=me; }
static void release(void*l){ held.erase(l); yield_(); }
extern "C" void GOMP_critical_name_start(void**p){ if(me)acquire(p); }
extern "C" void GOMP_critical_name_end(void**p){ if(me)release(p); }
extern "C" void GOMP_critical_start(){ if(me)acquire((void*)1); }
extern "C" void GOMP_critical_end(){ if(me)release((void*)1); }
extern "C" void omp_set_lock(void*p){ if(me)acquire(p); }
extern "C" void omp_unset_lock(void*p){ if(me)release(p); }
extern "C" int pthread_mutex_lock(pthread_mutex_t*m)noexcept{
    static int(*real)(pthread_mutex_t*)=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock");
    if(me){acquire(m);return 0;} return real(m);}
extern "C" int pthread_mutex_unlock(pthread_mutex_t*m)noexcept{
    static int(*real)(pthread_mutex_t*)=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_unlock");
    if(me){release(m);return 0;} return real(m);}
// one run; choices are taken from 'path' and then by 'pick'; width of every choice recorded
struct Run{vector<int> path,width;};
template<class P> static void run1(const J&c,Run&r,P pick){
    held.clear(); size_t pos=0; vector<int> taken; r.width.clear(); rec->clear(); acc.clear();
    ftruncate(outfd,0); outpos=0; lseek(outfd,0,SEEK_SET);
    ProgressTracker pt(c["n"].i,c["np"].i,ProgressTracker::PROGRESS_LINES,c["colors"].i,c["est"].i);
    auto&work=c["threads"].a; int N=work.size(); vector<Th*> th; vector<thread> ts;
    for(int k=0;k<N;k++){Th*t=new Th;t->id=k+1;sem_init(&t->s,0,0);th.push_back(t);}
    for(int k=0;k<N;k++)ts.emplace_back([&,k]{ me=th[k]; while(sem_wait(&me->s));
        for(auto&i:work[k].a){ rec->push_back(J::obj().set("op","start").set("t",k+1).set("i",i)); yield_(); pt.PrintProgress(i.i); drain(k+1); rec->push_back(J::obj().set("op","end").set("t",k+1)); yield_(); }
        th[k]->done=true; me=nullptr; sem_post(&mainsem); });
    for(;;){
        vector<int> en; bool all=true;
        for(int k=0;k<N;k++)if(!th[k]->done){all=false; if(!th[k]->want||!held.count(th[k]->want))en.push_back(k);}
        if(all)break;
        if(en.empty()){rec->push_back(J::obj().set("op","deadlock"));break;}
        int ch=0; if(en.size()>1){ ch=pos<r.path.size()?r.path[pos]:pick((int)en.size()); if(ch>=(int)en.size())ch=0; taken.push_back(ch); r.width.push_back(en.size()); pos++; }
        g_now+=1000000; sem_post(&th[en[ch]]->s); while(sem_wait(&mainsem));
    }
    r.path=taken;
    if(!rec->empty()&&rec->back()["op"].s=="deadlock"){J a=J::arr();for(auto&x:*rec)a.push(x);emit(J::obj().set("op","run").set("log",a));_Exit(98);}
    for(auto&t:ts)t.join(); for(auto*t:th){sem_destroy(&t->s);delete t;}
}
void runCase(const J&c){
    if(outfd<0){ outfd=memfd_create("out",0); dup2(outfd,1); sem_init(&mainsem,0,0); rec=new vector<J>; }
    fflush(stdout); g_onclock=[]{yield_();};
    set<string> seen; long long max=c["max"].i; unsigned long long rs=c["seed"].i*2654435761ULL+12345;
    auto rnd=[&](int w){rs=rs*6364136223846793005ULL+1442695040888963407ULL;return (int)((rs>>33)%w);};
    auto out=[&]{J a=J::arr();for(auto&x:*rec)a.push(x);string s=a.dump();if(seen.insert(s).second)emit(J::obj().set("op","run").set("log",a));};
    if(c["how"].s=="dfs"){
        Run r; for(long long k=0;k<max;k++){
            run1(c,r,[](int){return 0;}); out();
            int p=(int)r.path.size()-1; while(p>=0&&r.path[p]+1>=r.width[p])p--; if(p<0)break;
            r.path.resize(p+1); r.path[p]++;
        }
    }else if(c["how"].s=="rnd"){ for(long long k=0;k<max;k++){Run r; run1(c,r,rnd); out();} }
    else { // seq: a given order of reports, one thread after the other
        Run r; run1(c,r,[](int){return 0;}); out(); }
    g_onclock=nullptr;
}
