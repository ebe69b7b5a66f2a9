// Driver for configuration scripts: loading (C01-C03).
#include "hcommon.h"
#include <sstream>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
using namespace std;
static bool parentsOk(ConfigBlock*b){for(auto*s:b->GetAllSubBlocks()){if(s->GetParent()!=b||!s->HasParent()||!parentsOk(s))return false;}return true;}
J treeOf(ConfigBlock*b){
    J j=J::obj(); j.set("ty",(long long)b->GetType()).set("name",codes(b->GetName())).set("sec",codes(b->GetSecondaryType()));
    J ss=J::arr(); for(auto*s:b->GetAllSettings()){J v=J::arr(); for(auto&x:s->GetTextVector())v.push(codes(x)); ss.push(J::obj().set("n",codes(s->GetName())).set("v",v));}
    j.set("sets",ss); J sb=J::arr(); for(auto*c:b->GetAllSubBlocks())sb.push(treeOf(c)); j.set("subs",sb); return j;
}
// the place named by a report: "file:line:column: message"
static J place(const string&m){
    for(size_t i=0;i<m.size();i++)if(m[i]==':'){
        size_t j=i+1,k; while(j<m.size()&&isdigit(m[j]))j++; if(j==i+1||j>=m.size()||m[j]!=':'||j-i>9)continue;
        k=j+1; while(k<m.size()&&isdigit(m[k]))k++; if(k==j+1||k>=m.size()||m[k]!=':')continue;
        return J::obj().set("has",true).set("file",codes(m.substr(0,i))).set("line",atoll(m.c_str()+i+1));
    }
    return J::obj().set("has",!m.empty()).set("file",codes("")).set("line",0LL);
}
static J doLoad(const J&c){
    string route=c["route"].s, script=uncodes(c["script"]); J r=J::obj();
    for(auto&f:c["files"].a){ofstream o(uncodes(f["n"]),ios::binary);o<<uncodes(f["c"]);}
    ConfigurationScript *cs=new ConfigurationScript();
    bool first=true; for(auto&t:c["types"].a){ if(!first)cs->RegisterBlockType(uncodes(t)); first=false; }
    string what; long long getline_=-1; stringstream err; auto*old=cerr.rdbuf(err.rdbuf());
    try{
        if(route=="string")cs->FromString(script,"text");
        else if(route=="file"){string fn=c.has("fname")?uncodes(c["fname"]):string("main.cfg");{ofstream o(fn,ios::binary);o<<script;}cs->FromFile(fn);}
        else{stringbuf sb(script);auto*oi=cin.rdbuf(&sb);cin.clear();try{cs->FromStdin();}catch(...){cin.rdbuf(oi);throw;}cin.rdbuf(oi);}
        r.set("exc","none").set("err",cs->HasError()).set("parents",cs->GetRootBlock()->GetParent()==nullptr&&parentsOk(cs->GetRootBlock())).set("tree",treeOf(cs->GetRootBlock()));
    }catch(ConfigurationException&e){what=e.whats();getline_=(long long)e.GetLine();r.set("exc","config").set("err",cs->HasError());}
    catch(SOFTLibException&e){r.set("exc","softlib").set("err",cs->HasError());}
    catch(exception&e){r.set("exc","other").set("err",cs->HasError());}
    cerr.rdbuf(old);
    string fe; for(string ln;getline(err,ln);)if(ln.compare(0,7,"ERROR: ")==0){fe=ln.substr(7);break;}
    J rep=place(fe.empty()?what:fe); rep.set("getline",fe.empty()&&getline_>=0?getline_:rep["line"].i); r.set("rep",rep);
    for(auto&f:c["files"].a)unlink(uncodes(f["n"]).c_str());
    unlink("main.cfg");
    delete cs;
    return r;
}
void runCase(const J&c){
    for(auto&o:c["ops"].a){ J e=o; e.set("res",doLoad(o)); emit(e); }
}
