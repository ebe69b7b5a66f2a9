// Driver for the lines of the progress tracker (G06), on a controlled clock; standard output is captured.
#include "vclock.h"
#include "hcommon.h"
#include <sys/mman.h>
#include <softlib/ProgressTracker.h>
using namespace std;
static int outfd=-1;
static string strip(const string&s){string r;for(size_t i=0;i<s.size();i++){if(s[i]=='\x1B'){while(i<s.size()&&s[i]!='m')i++;continue;}r+=s[i];}return r;}
static J line(const string&l){
    J r=J::obj(); string s=strip(l); long long k=-1,of=-1; size_t q=s.find('('); J ts=J::arr();
    if(q!=string::npos){ sscanf(s.c_str()+q,"(%lld/%lld)",&k,&of); size_t i=s.find(')',q); i=i==string::npos?s.size():i;
        while(i<s.size()){ // maximal runs of letters and digits beginning with a digit (or a sign)
            if(isdigit((unsigned char)s[i])||s[i]=='-'){size_t j=i+1;while(j<s.size()&&isalnum((unsigned char)s[j]))j++; ts.push(s.substr(i,j-i)); i=j;} else i++; } }
    return r.set("k",k).set("of",of).set("times",ts).set("esc",l.find('\x1B')!=string::npos);
}
void runCase(const J&c){
    if(outfd<0){ outfd=memfd_create("out",0); dup2(outfd,1); }
    g_now=1000000000LL*(1700000000LL+g_case%1000);
    bool col=c["colors"].i,est=c["est"].i; size_t pos;
    ftruncate(outfd,0); lseek(outfd,0,SEEK_SET); pos=0;
    ProgressTracker*p=!col&&!est?new ProgressTracker(c["n"].i,c["np"].i,ProgressTracker::PROGRESS_LINES):new ProgressTracker(c["n"].i,c["np"].i,ProgressTracker::PROGRESS_LINES,col,est);
    for(auto&o:c["ops"].a){ J e=o;
        g_now+=o["ms"].i*1000000LL+o["us"].i*1000LL;
        p->PrintProgress(o["i"].i); fflush(stdout); cout.flush();
        string acc; char b[4096]; ssize_t n; while((n=pread(outfd,b,sizeof b,pos))>0){acc.append(b,n);pos+=n;}
        J ls=J::arr(); size_t q; while((q=acc.find('\n'))!=string::npos){ls.push(line(acc.substr(0,q)));acc.erase(0,q+1);}
        if(!acc.empty())ls.push(line(acc));
        e.set("n",c["n"]).set("np",c["np"]).set("est",est).set("colors",col).set("lines",ls); emit(e);
    }
    delete p;
}
