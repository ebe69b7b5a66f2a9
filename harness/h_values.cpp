// Driver for typed reads of script settings (C04).
#include "hcommon.h"
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
using namespace std;
template<class F> static string is(F f){try{return f()?"yes":"no";}catch(...){return "exc";}}
template<class F> static J get(F f){try{return J::obj().set("k","v").set("t",f());}catch(exception&e){return J::obj().set("k","exc");}catch(SOFTLibException&e){return J::obj().set("k","exc");}}
static J num(double d){char b[64];snprintf(b,64,"%.14e",d);return codes(b);}
template<class T> static J in(T v){return codes(to_string(v));}
void runCase(const J&c){
    for(auto&o:c["ops"].a){
        vector<string>v; for(auto&x:o["vals"].a)v.push_back(uncodes(x));
        Setting*s; 
        if(o["how"].s=="vec")s=new SettingScript("n",v);
        else{SettingScript*z=new SettingScript("n",v.at(0));for(size_t i=1;i<v.size();i++)z->AppendValue(v[i]);s=z;}
        if(o["how"].s=="copy"){Setting*z=s->Copy();delete s;s=z;}
        J r=J::obj(),ps=J::arr();
        for(unsigned i=0;i<v.size();i++){
            J p=J::obj();
            #define P(k,I,G) p.set(k,J::obj().set("is",is([&]{return s->I(i);})).set("get",get([&]{return in(s->G(i));})))
            P("i32",IsInteger32,GetInteger32);P("i64",IsInteger64,GetInteger64);P("i",IsInteger,GetInteger);P("u32",IsUnsignedInteger32,GetUnsignedInteger32);P("u64",IsUnsignedInteger64,GetUnsignedInteger64);
            p.set("r",J::obj().set("is",is([&]{return s->IsScalar(i);})).set("get",get([&]{return num(s->GetScalar(i));})));
            p.set("b",J::obj().set("is",is([&]{return s->IsBool(i);})).set("get",get([&]{return J(s->GetBool(i)?"true":"false");})));
            p.set("s",get([&]{return codes(s->GetString(i));})); ps.push(p);
        }
        J w=J::obj(); w.set("i32",is([&]{return s->IsInteger32();})).set("i64",is([&]{return s->IsInteger64();})).set("i",is([&]{return s->IsInteger();})).set("u32",is([&]{return s->IsUnsignedInteger32();})).set("u64",is([&]{return s->IsUnsignedInteger64();}))
            .set("r",is([&]{return s->IsScalar();})).set("b",is([&]{return s->IsBool();}));
        J vn=J::arr(); for(unsigned n:{0u,1u,(unsigned)v.size()-1,(unsigned)v.size(),(unsigned)v.size()+1})vn.push(J::obj().set("n",(int)n).set("is",is([&]{return s->IsNumericVector(n);})));
        J tx=J::arr(); for(auto&x:s->GetTextVector())tx.push(codes(x));
        J by=J::arr(); for(unsigned i:{(unsigned)v.size(),(unsigned)v.size()+1,0xffffffffu}){
            #define B(G) by.push(get([&]{s->G(i);return J(0);})["k"].s)
            B(GetBool);B(GetInteger);B(GetInteger32);B(GetInteger64);B(GetUnsignedInteger32);B(GetUnsignedInteger64);B(GetScalar);B(GetString);}
        r.set("n",(long long)s->GetNumberOfValues()).set("p",ps).set("w",w).set("vec",is([&]{return s->IsNumericVector();})).set("vecn",vn)
         .set("getv",get([&]{J a=J::arr();for(double d:s->GetNumericVector())a.push(num(d));return a;})).set("text",tx).set("beyond",by);
        delete s; J e=o; e.set("res",r); emit(e);
    }
}
