// Driver for exceptions (G04): every class, argument mix and way of passing an exception on.
#include "hcommon.h"
#include <softlib/ConfigurationException.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
using namespace std;
struct Arg{int k;string s;long long i;unsigned long long u;};
static J obsOf(SOFTLibException&x){
    J r=J::arr(); r.push(codes(x.what())).push(codes(x.whats())); std::exception&b=x; r.push(codes(b.what())); return r;
}
template<class E> static J passOn(E&x){ // copies, assignment, throwing by value and rethrowing
    J r=J::arr(); r.push(obsOf(x)); E y(x); r.push(obsOf(y)); { E z("other %d",5); z=x; r.push(obsOf(z)); }
    try{throw x;}catch(SOFTLibException&q){r.push(obsOf(q));}
    try{try{throw y;}catch(std::exception&){throw;}}catch(E q){r.push(obsOf(q));}
    SOFTLibException s(x); r.push(obsOf(s));
    return r;
}
static J outp;
template<class...A> static void make(const J&o,const string&fmt,A...a){
    string cls=o["cls"].s; J pos=J::arr();
    if(cls=="soft"){SOFTLibException x(fmt,a...);outp=passOn(x);}
    else if(cls=="sfile"){SFileException x(fmt,a...);outp=passOn(x);}
    else if(cls=="conf"){ConfigurationException x(fmt,a...);outp=passOn(x);pos.push((long long)x.GetLine()).push((long long)x.GetCharpos());}
    else{size_t ln=o["line"].i,cp=o["pos"].i;string f=uncodes(o["file"]);ConfigurationException x(ln,cp,f,fmt,a...);outp=passOn(x);ConfigurationException y(x);pos.push((long long)y.GetLine()).push((long long)y.GetCharpos());}
    // report the different texts seen (normally one) and how often an observation was made
    vector<string> d; int n=0; J ds=J::arr(); for(auto&x:outp.a)for(auto&y:x.a){n++;string t=y.dump();bool f=false;for(auto&z:d)f|=z==t;if(!f){d.push_back(t);ds.push(y);}}
    outp=J::obj().set("msgs",ds).set("n",n).set("pos",pos);
}
template<int D,class...A> static void bind(const J&o,const string&fmt,const vector<Arg>&v,size_t i,A...a){
    if(i==v.size())make(o,fmt,a...);
    else if constexpr(D>0){switch(v[i].k){case 0:bind<D-1>(o,fmt,v,i+1,a...,v[i].s.c_str());break;case 1:bind<D-1>(o,fmt,v,i+1,a...,(int)v[i].i);break;default:bind<D-1>(o,fmt,v,i+1,a...,(size_t)v[i].u);}}
    else _Exit(96);
}
void runCase(const J&c){
    for(auto&o:c["ops"].a){ J e=o; string fmt; vector<Arg> v;
        bool verb=o["verb"].i;
        for(auto&p:o["parts"].a){ string k=p["k"].s,x=uncodes(p["x"]);
            if(k=="lit"){for(char ch:x){if(ch=='%'&&!verb)fmt+='%';fmt+=ch;}}
            else if(k=="s"){fmt+="%s";v.push_back({0,x,0,0});} else if(k=="d"){fmt+="%d";v.push_back({1,"",strtoll(x.c_str(),0,10),0});} else {fmt+="%zu";v.push_back({2,"",0,strtoull(x.c_str(),0,10)});} }
        try{bind<3>(o,fmt,v,0);}catch(...){outp=J::obj().set("msgs",J::arr()).set("pos",J::arr());}
        e.set("res",outp); emit(e);
    }
}
