// Driver for settings holding typed data (C09).
#include "hcommon.h"
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationSFile.h>
#include <softlib/Configuration/ConfigurationScript.h>
using namespace std;
#define NS 3
static Setting *slot[NS+1];
template<class F> static string is(F f){try{return f()?"yes":"no";}catch(...){return "exc";}}
template<class F> static J get(F f){try{return J::obj().set("k","v").set("t",f());}catch(exception&e){return J::obj().set("k","exc");}catch(SOFTLibException&e){return J::obj().set("k","exc");}}
static J num(double d){char b[64];snprintf(b,64,"%.14e",d);return codes(b);}
template<class T> static J in(T v){return codes(to_string(v));}
static J obsOf(Setting*s){
    J r=J::obj(),ps=J::arr(); if(!s)return r.set("live",false);
    size_t n=s->GetNumberOfValues(); if(n>1000)n=1000;
    // reading a real that does not fit an integer type has no meaning; such reads are not made
    SettingSFile*sf=dynamic_cast<SettingSFile*>(s);
    for(unsigned i=0;i<n;i++){
        J p=J::obj(); bool skip=false; if(sf&&sf->dtype==SettingSFile::REAL){double d=sf->data.r->at(i); skip=!(d>=-9223372036854775808.0&&d<9223372036854775808.0);}
        #define P(k,I,G) p.set(k,J::obj().set("is",is([&]{return s->I(i);})).set("get",skip?J::obj().set("k","skip"):get([&]{return in(s->G(i));})))
        P("i32",IsInteger32,GetInteger32);P("i64",IsInteger64,GetInteger64);P("i",IsInteger,GetInteger);P("u32",IsUnsignedInteger32,GetUnsignedInteger32);P("u64",IsUnsignedInteger64,GetUnsignedInteger64);
        p.set("r",J::obj().set("is",is([&]{return s->IsScalar(i);})).set("get",get([&]{return num(s->GetScalar(i));})));
        p.set("b",J::obj().set("is",is([&]{return s->IsBool(i);})).set("get",get([&]{return codes(s->GetBool(i)?"true":"false");})));
        p.set("s",get([&]{return codes(s->GetString(i));})); ps.push(p);
    }
    J w=J::obj(); w.set("i32",is([&]{return s->IsInteger32();})).set("i64",is([&]{return s->IsInteger64();})).set("i",is([&]{return s->IsInteger();})).set("u32",is([&]{return s->IsUnsignedInteger32();})).set("u64",is([&]{return s->IsUnsignedInteger64();}))
        .set("r",is([&]{return s->IsScalar();})).set("b",is([&]{return s->IsBool();}));
    J vn=J::arr(); for(unsigned k:{0u,1u,(unsigned)n-1,(unsigned)n,(unsigned)n+1})vn.push(J::obj().set("n",(int)k).set("is",is([&]{return s->IsNumericVector(k);})));
    J by=J::arr(),bi=J::arr(); for(unsigned i:{(unsigned)n,(unsigned)n+1,0xffffffffu}){
        #define B(G) by.push(get([&]{s->G(i);return J(0);})["k"].s)
        B(GetBool);B(GetInteger);B(GetInteger32);B(GetInteger64);B(GetUnsignedInteger32);B(GetUnsignedInteger64);B(GetScalar);B(GetString);
        #define BI(G) bi.push(is([&]{return s->G(i);}))
        BI(IsBool);BI(IsInteger);BI(IsInteger32);BI(IsInteger64);BI(IsUnsignedInteger32);BI(IsUnsignedInteger64);BI(IsScalar);}
    r.set("live",true).set("n",(long long)s->GetNumberOfValues()).set("p",ps).set("w",w).set("vec",is([&]{return s->IsNumericVector();})).set("vecn",vn)
     .set("getv",get([&]{J a=J::arr();for(double d:s->GetNumericVector())a.push(num(d));return a;})).set("text",get([&]{J tx=J::arr(); for(auto&x:s->GetTextVector())tx.push(codes(x));return tx;})).set("beyond",by).set("beyondis",bi);
    return r;
}
static void setTo(int s,const string&ty,const vector<string>&v){
    SettingSFile*f=dynamic_cast<SettingSFile*>(slot[s]);
    #define T(name,type,conv,setter) if(ty==name){auto*x=new vector<type>();for(auto&q:v)x->push_back(conv);if(f)f->setter(x);else slot[s]=new SettingSFile(x);}
    T("bool",bool,q=="true",SetValueBool) T("i32",int32_t,(int32_t)strtoll(q.c_str(),0,10),SetValueInt32) T("i64",int64_t,strtoll(q.c_str(),0,10),SetValueInt64)
    T("u32",uint32_t,(uint32_t)strtoull(q.c_str(),0,10),SetValueUInt32) T("u64",uint64_t,strtoull(q.c_str(),0,10),SetValueUInt64) T("real",slibreal_t,strtod(q.c_str(),0),SetValueReal) T("str",string,q,SetValueString)
}
void runCase(const J&c){
    for(auto&x:slot)x=nullptr;
    for(auto&o:c["ops"].a){ J e=o; string op=o["op"].s,res="ok"; int s=o["s"].i; vector<string>v; if(o.has("vals"))for(auto&x:o["vals"].a)v.push_back(uncodes(x));
        try{
            if(op=="set")setTo(s,o["ty"].s,v);
            else if(op=="over")slot[s]->OverwriteValues(slot[o["s2"].i]);
            else if(op=="copy")slot[s]=slot[o["s2"].i]->Copy();
            else if(op=="script"){SettingScript x("n",v);slot[s]->OverwriteValues(&x);}
            else if(op=="destroy"){delete slot[s];slot[s]=nullptr;}
            else _Exit(96);
        }catch(SOFTLibException&x){res="softlib";}catch(exception&x){res="other";}
        J ob=J::arr(); for(int i=1;i<=NS;i++)ob.push(obsOf(slot[i])); e.set("res",res).set("obs",ob); emit(e);
    }
    for(int i=1;i<=NS;i++){delete slot[i];slot[i]=nullptr;}
}
