// Driver for configuration objects: blocks, settings, merges, copies, lookups (C05-C08).
#include "hcommon.h"
#include <sstream>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
using namespace std;
#define NS 3
static ConfigurationScript *slot[NS+1];
static J treeOf(ConfigBlock*b,ConfigBlock*parent){
    J j=J::obj(); j.set("ty",(long long)b->GetType()).set("name",b->GetName()).set("sec",b->GetSecondaryType());
    J ss=J::arr(); for(auto*s:b->GetAllSettings()){J v=J::arr(); for(auto&x:s->GetTextVector())v.push(x);
        ss.push(J::obj().set("n",s->GetName()).set("v",v).set("u",s->Touched()));}
    j.set("sets",ss); J u=J::arr(); for(auto*s:b->GetUntouchedSettings())u.push(s->GetName()); j.set("unt",u);
    j.set("hasunt",b->HasUntouchedSettings()).set("par",b->GetParent()==parent&&b->HasParent()==(parent!=nullptr));
    J sb=J::arr(); for(auto*c:b->GetAllSubBlocks())sb.push(treeOf(c,b)); j.set("subs",sb); return j;
}
static J obs(){J o=J::arr(); for(int i=1;i<=NS;i++){ J s=J::obj().set("live",slot[i]!=nullptr);
    if(slot[i]){J t=J::arr();for(auto&x:slot[i]->GetBlockTypes())t.push(x); s.set("types",t).set("err",slot[i]->HasError()).set("tree",treeOf(slot[i]->GetRootBlock(),nullptr));}
    o.push(s);} return o;}
static ConfigBlock*at(int s,const J&path){ConfigBlock*b=slot[s]->GetRootBlock();for(auto&k:path.a)b=b->GetAllSubBlocks().at(k.i-1);return b;}
static int idx(ConfigBlock*h,Setting*s){auto v=h->GetAllSettings();for(size_t i=0;i<v.size();i++)if(v[i]==s)return i+1;return -1;}
static int idx(ConfigBlock*h,ConfigBlock*s){auto v=h->GetAllSubBlocks();for(size_t i=0;i<v.size();i++)if(v[i]==s)return i+1;return -1;}
static void stmts(const J&l,const vector<string>&types,string&out){
    for(auto&s:l.a){
        if(s["k"].s=="set"){out+="\""+s["name"].s+"\" =";for(auto&v:s["vals"].a)out+=" \""+v.s+"\"";out+=";\n";}
        else{out+=types.at(s["ty"].i)+" \""+s["name"].s+"\"";if(!s["sec"].s.empty())out+=" (\""+s["sec"].s+"\")";out+=" {\n";stmts(s["body"],types,out);out+="}\n";}
    }
}
static J run(const J&o){
    string op=o["op"].s; int s=o["s"].i; J r=J::obj(); auto ok=[&]{r.set("k","ok");};
    if(op=="new"){slot[s]=new ConfigurationScript();ok();}
    else if(op=="load"){string t;stmts(o["stmts"],slot[s]->GetBlockTypes(),t);ConfigBlock*old=slot[s]->GetRootBlock();slot[s]->FromString(t,"t");if(slot[s]->GetRootBlock()!=old)delete old;ok();}
    else if(op=="register"){try{r.set("id",(long long)slot[s]->RegisterBlockType(o["name"].s)).set("k","id");}catch(SOFTLibException&){r=J::obj().set("k","exc");}}
    else if(op=="seterr"){slot[s]->SetErrorFlag();ok();}
    else if(op=="addset"){ConfigBlock*h=at(s,o["path"]);vector<string>v;for(auto&x:o["vals"].a)v.push_back(x.s);
        Setting*x=h->AddSetting(v.size()==1?new SettingScript(o["name"].s,v[0]):new SettingScript(o["name"].s,v));r.set("k","set").set("i",idx(h,x)).set("n",x->GetName());}
    else if(op=="addcopy"){ConfigBlock*h=at(s,o["path"]);Setting*x=h->AddSetting(at(o["s2"].i,o["path2"])->GetAllSettings().at(o["k"].i-1)->Copy());r.set("k","set").set("i",idx(h,x)).set("n",x->GetName());}
    else if(op=="addsub"){ConfigBlock*h=at(s,o["path"]);ConfigBlock*x=h->AddSubBlock(o["ty"].i,o["name"].s,o["sec"].s);r.set("k","sub").set("i",idx(h,x));}
    else if(op=="graft"){ConfigBlock*h=at(s,o["path"]);ConfigBlock*x=h->AddSubBlock(new ConfigBlock(at(o["s2"].i,o["path2"])));r.set("k","sub").set("i",idx(h,x));}
    else if(op=="get"||op=="append"){ConfigBlock*h=at(s,o["path"]);Setting*x=op=="get"?h->GetSetting(o["name"].s.c_str()):h->GetSetting(o["name"].s);
        if(!x)r.set("k","none");else{if(op=="append"){SettingScript*y=dynamic_cast<SettingScript*>(x);if(!y)_Exit(96);y->AppendValue(o["val"].s);}r.set("k","set").set("i",idx(h,x));}}
    else if(op=="index"){ConfigBlock*h=at(s,o["path"]);try{string v=(*h)[o["name"].s];r.set("k","val").set("v",v);}catch(SOFTLibException&){r.set("k","exc");}}
    else if(op=="probe"){ConfigBlock*h=at(s,o["path"]);J a=J::arr(),b=J::arr(),c=J::arr(),d=J::arr(),e=J::arr(),f=J::arr(),g=J::arr(),i=J::arr(),k=J::arr();
        for(auto&n:o["names"].a)a.push(h->HasSetting(n.s));
        for(auto&x:o["blocks"].a){b.push(h->HasSubBlock(x["ty"].i,x["name"].s));ConfigBlock*q=h->GetConfigBlock(x["ty"].i,x["name"].s);c.push(q?idx(h,q):0);
            ConfigBlock cmp((confblock_t)x["ty"].i,x["name"].s); bool t1=h->HasTypeAndName(x["ty"].i,x["name"].s),t2=(*h==cmp); if(t1!=t2)d.push("differ");else d.push(t1);}
        for(auto&x:o["tys"].a){J l=J::arr();for(auto*q:h->GetAllSubBlocksOfType(x.i))l.push(idx(h,q));e.push(l);f.push(h->HasSubBlocks(x.i));g.push(h->HasType(x.i));}
        for(auto&x:o["tnames"].a){i.push(slot[s]->IsBlockType(x.s));k.push((long long)slot[s]->StringToBlockType(x.s));}
        r.set("k","probe").set("hass",a).set("hasb",b).set("getb",c).set("self",d).set("oft",e).set("hast",f).set("selft",g).set("any",h->HasSubBlocks()).set("ist",i).set("tid",k);}
    else if(op=="merge"||op=="mergeblk"){bool al=o["allow"].i;
        vector<string>*u=op=="merge"?slot[s]->Merge(*slot[o["s2"].i],al):at(s,o["path"])->Merge(at(o["s2"].i,o["path2"]),al);
        if(!u)r.set("k","none");else{J l=J::arr();for(auto&x:*u)l.push(x);r.set("k","unknown").set("names",l);delete u;}}
    else if(op=="copy"){slot[s]=new ConfigurationScript(*slot[o["s2"].i]);ok();}
    else if(op=="destroy"){delete slot[s]->GetRootBlock();delete slot[s];slot[s]=nullptr;ok();}
    else _Exit(96);
    return r;
}
void runCase(const J&c){
    for(auto&x:slot)x=nullptr;
    for(auto&o:c["ops"].a){ J e=o,r; try{r=run(o);}catch(SOFTLibException&x){r=J::obj().set("k","softlib");}catch(exception&x){r=J::obj().set("k","other");} e.set("res",r).set("obs",obs()); emit(e); }
    for(int i=1;i<=NS;i++)if(slot[i]){delete slot[i]->GetRootBlock();delete slot[i];slot[i]=nullptr;}
}
