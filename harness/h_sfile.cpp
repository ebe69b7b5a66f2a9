// Driver for data files (S01-S05). All files live in the current (scratch) directory of the shard.
#include "hcommon.h"
#include <cmath>
#include <ctime>
#include <dirent.h>
#include <sys/stat.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SFile_HDF5.h>
#include <softlib/SFile_MAT.h>
#include <softlib/SFile_SDT.h>
#include <hdf5.h>
using namespace std;
static struct tm g_tm; static bool g_faketm=false;
extern "C" struct tm *localtime(const time_t*t){ static struct tm r; if(g_faketm){r=g_tm;return &r;} localtime_r(t,&r); return &r; }
static string fnum(double d){ char b[64];
    if(std::isnan(d))return "nan"; if(std::isinf(d))return d>0?"inf":"-inf";
    if(d==0)return std::signbit(d)?"-0":"0";
    if(fabs(d)<9e15&&d==floor(d)){snprintf(b,64,"%lld",(long long)d);return b;}
    snprintf(b,64,"%a",d);return b;}
static string fmt(double d){return fnum(d);} static string fmt(int32_t v){return to_string(v);} static string fmt(int64_t v){return to_string(v);} static string fmt(uint32_t v){return to_string(v);} static string fmt(uint64_t v){return to_string(v);}
template<class T> static T par(const string&s);
template<> double par<double>(const string&s){return strtod(s.c_str(),0);}
template<> int32_t par<int32_t>(const string&s){return (int32_t)strtoll(s.c_str(),0,10);}
template<> int64_t par<int64_t>(const string&s){return strtoll(s.c_str(),0,10);}
template<> uint32_t par<uint32_t>(const string&s){return (uint32_t)strtoull(s.c_str(),0,10);}
template<> uint64_t par<uint64_t>(const string&s){return strtoull(s.c_str(),0,10);}
static string nm(const J&p){string s;for(size_t i=0;i<p.size();i++){if(i)s+="/";s+=p[i].s;}return s;}
static string hashf(const string&f){ifstream i(f,ios::binary);unsigned long long h=1469598103934665603ULL;char c;size_t n=0;while(i.get(c)){h=(h^(unsigned char)c)*1099511628211ULL;n++;}char b[64];snprintf(b,64,"%llx-%zu",h,n);return b;}
static J ok(){return J::obj().set("k","ok");}
template<class T> static void junk(T*p,size_t n){for(size_t i=0;i<n;i++)p[i]=(T)77;}
// matrices are handed over row by row, each row in its own allocation when "split"
template<class T> struct Mat{ vector<T*>rows; vector<vector<T>>own; vector<T>all;
    Mat(const J&v,bool split){size_t r=v["d"][0].i,c=v["d"][1].i;
        if(split){own.resize(r);for(size_t i=0;i<r;i++){own[i].resize(c);for(size_t j=0;j<c;j++)own[i][j]=par<T>(v["e"][i*c+j].s);rows.push_back(own[i].data());}}
        else{all.resize(r*c);for(size_t i=0;i<r*c;i++)all[i]=par<T>(v["e"][i].s);for(size_t i=0;i<r;i++)rows.push_back(all.data()+i*c);} if(!r)rows.push_back(nullptr);}};
template<class T> static vector<T> vec(const J&v){vector<T>r;for(auto&x:v["e"].a)r.push_back(par<T>(x.s));return r;}
static void doWrite(SFile*s,const string&n,const J&o){
    const J&v=o["val"]; string how=o["how"].s,t=v["t"].s; bool split=o.has("split")&&o["split"].i;
    if(how=="string"){s->WriteString(n,uncodes(v["e"]));return;}
    if(how=="scalar"){s->WriteScalar(n,par<double>(v["e"][0].s));return;}
    if(how=="image"){Mat<double>m(v,split);s->WriteImage(n,m.rows.data(),v["d"][0].i);return;}
    bool ov=how=="listov"||how=="matov";   // through the overloaded names
    if(how=="list"||how=="listov"){
        #define L(ty,T,F) if(t==ty){vector<T>x=vec<T>(v);const T*p=x.data();T dummy;if(!p)p=&dummy;if(ov)s->WriteList(n,p,x.size());else s->F(n,p,x.size());return;}
        L("f64",double,WriteList) L("i32",int32_t,WriteInt32List) L("i64",int64_t,WriteInt64List) L("u32",uint32_t,WriteUInt32List) L("u64",uint64_t,WriteUInt64List)
    }
    if(how=="mat"||how=="matov"){
        #define A(ty,T,F) if(t==ty){Mat<T>m(v,split);if(ov)s->WriteArray(n,m.rows.data(),v["d"][0].i,v["d"][1].i);else s->F(n,m.rows.data(),v["d"][0].i,v["d"][1].i);return;}
        A("f64",double,WriteArray) A("i32",int32_t,WriteInt32Array) A("i64",int64_t,WriteInt64Array) A("u32",uint32_t,WriteUInt32Array) A("u64",uint64_t,WriteUInt64Array)
    }
    if(how=="multi"){ vector<sfilesize_t>d;for(auto&x:v["d"].a)d.push_back(x.i);
        #define M(ty,T,F) if(t==ty){vector<T>x=vec<T>(v);T dummy;const T*p=x.empty()?&dummy:x.data();s->F(n,p,d.size(),d.data());return;}
        M("f64",double,WriteMultiArray) M("i32",int32_t,WriteMultiInt32Array) M("i64",int64_t,WriteMultiInt64Array) M("u32",uint32_t,WriteMultiUInt32Array) M("u64",uint64_t,WriteMultiUInt64Array)
    }
    fprintf(stderr,"harness: write %s %s\n",how.c_str(),t.c_str()); _Exit(96);
}
template<class T> static J two(T**p,sfilesize_t*d){J e=J::arr();
    for(size_t i=0;i<d[0];i++)for(size_t j=0;j<d[1];j++)e.push(fmt(p[i][j]));
    if(d[0]){junk(p[0],d[0]*d[1]);delete[]p[0];} delete[]p; return ok().set("d",J::arr().push((long long)d[0]).push((long long)d[1])).set("e",e);}
template<class T> static J one(T*p,sfilesize_t n){J e=J::arr();for(size_t i=0;i<n;i++)e.push(fmt(p[i])); junk(p,n);delete[]p; return ok().set("d",J::arr().push((long long)n)).set("e",e);}
template<class T> static J zero(T v){return ok().set("d",J::arr()).set("e",J::arr().push(fmt(v)));}
static J doGet(SFile*s,const string&n,const string&how){
    sfilesize_t d[8]={0,0,0,0,0,0,0,0};
    if(how=="string")return ok().set("d",J::arr()).set("e",codes(s->GetString(n)));
    #define G2(k,F) if(how==k){auto p=s->F(n,d);return two(p,d);}
    #define G1(k,F) if(how==k){auto p=s->F(n,d);return one(p,d[0]);}
    #define G0(k,F) if(how==k)return zero(s->F(n));
    G2("doubles",GetDoubles) G2("i32_2",GetInt32_2D) G2("i64_2",GetInt64_2D) G2("u32_2",GetUInt32_2D) G2("u64_2",GetUInt64_2D) G2("intarray",GetIntArray)
    G1("list",GetList) G1("doubles1",GetDoubles1D) G1("i32_1",GetInt32_1D) G1("i64_1",GetInt64_1D) G1("u32_1",GetUInt32_1D) G1("u64_1",GetUInt64_1D) G1("intlist",GetIntList)
    G0("scalar",GetScalar) G0("i32",GetInt32) G0("i64",GetInt64) G0("u32",GetUInt32) G0("u64",GetUInt64) G0("int",GetInt)
    fprintf(stderr,"harness: get %s\n",how.c_str()); _Exit(96);
}
static const double* base(void*p,size_t nd){for(size_t i=1;i<nd;i++)p=*(void**)p;return (const double*)p;}
static void walk(void*p,const sfilesize_t*d,size_t nd,J&e){ if(nd==1){for(size_t i=0;i<d[0];i++)e.push(fmt(((double*)p)[i]));return;} for(size_t i=0;i<d[0];i++)walk(((void**)p)[i],d+1,nd-1,e);}
static const char* tyname(int t){static const char*n[]={"undef","f64","i32","i64","u32","u64","text"};return t>=0&&t<7?n[t]:"?";}
static int tynum(const string&s){for(int i=0;i<7;i++)if(s==tyname(i))return i;return 0;}
static const char* ftname(int t){return t==SFILE_TYPE_HDF5?"h5":t==SFILE_TYPE_MATLAB?"mat":t==SFILE_TYPE_SDT?"sdt":"undef";}
static void rmall(){ DIR*d=opendir("w"); if(!d)return; vector<string>v; while(auto e=readdir(d))if(e->d_name[0]!='.')v.push_back(e->d_name); closedir(d); for(auto&x:v)unlink(("w/"+x).c_str()); }
// what an ordinary HDF5 reader sees
static string tname(hid_t t){ H5T_class_t c=H5Tget_class(t); size_t n=H5Tget_size(t); 
    if(c==H5T_FLOAT&&n==8)return "f64"; if(c==H5T_STRING)return "text"; if(c!=H5T_INTEGER)return "?";
    bool u=H5Tget_sign(t)==H5T_SGN_NONE; return (u?"u":"i")+to_string(8*n); }
static J elems(hid_t o,hid_t t,bool attr,size_t n){ string k=tname(t); J e=J::arr();
    auto rd=[&](hid_t m,void*p){ if(n==0)return; if(attr)H5Aread(o,m,p); else H5Dread(o,m,H5S_ALL,H5S_ALL,H5P_DEFAULT,p); };
    if(k=="f64"){vector<double>v(n+1);rd(H5T_NATIVE_DOUBLE,v.data());for(size_t i=0;i<n;i++)e.push(fmt(v[i]));}
    else if(k=="text"){ if(H5Tis_variable_str(t)>0){vector<char*>v(n+1,nullptr);rd(t,v.data());for(size_t i=0;i<n;i++)for(char*q=v[i];q&&*q;q++)e.push((int)(unsigned char)*q);}
        else{size_t w=H5Tget_size(t);vector<char>v(n*w+1);rd(t,v.data());for(size_t i=0;i<n*w;i++)e.push((int)(unsigned char)v[i]);} }
    else if(k=="u64"){vector<uint64_t>v(n+1);rd(H5T_NATIVE_UINT64,v.data());for(size_t i=0;i<n;i++)e.push(fmt(v[i]));}
    else{vector<int64_t>v(n+1);rd(H5T_NATIVE_INT64,v.data());for(size_t i=0;i<n;i++)if(k=="u16")e.push((int)(v[i]%256));else e.push(fmt(v[i]));}
    return e; }
static J attrs(hid_t o){ J a=J::arr(); int n=H5Aget_num_attrs(o); for(int i=0;i<n;i++){ hid_t x=H5Aopen_idx(o,i); char b[300]; H5Aget_name(x,300,b); hid_t t=H5Aget_type(x),sp=H5Aget_space(x); size_t m=H5Sget_simple_extent_npoints(sp);
    a.push(J::obj().set("n",b).set("t",tname(t)).set("e",elems(x,t,true,m))); H5Tclose(t);H5Sclose(sp);H5Aclose(x);} return a; }
static void dump5(hid_t g,const J&pre,J&out){ H5G_info_t gi; H5Gget_info(g,&gi); for(hsize_t i=0;i<gi.nlinks;i++){ char b[300]; H5Lget_name_by_idx(g,".",H5_INDEX_NAME,H5_ITER_INC,i,b,300,H5P_DEFAULT); J nmj=pre; nmj.push(b); hid_t o=H5Oopen(g,b,H5P_DEFAULT);
    if(H5Iget_type(o)==H5I_GROUP){ out.push(J::obj().set("name",nmj).set("k","group").set("t","").set("d",J::arr()).set("e",J::arr()).set("a",attrs(o))); dump5(o,nmj,out); }
    else{ hid_t t=H5Dget_type(o),sp=H5Dget_space(o); hsize_t d[33]; int nd=H5Sget_simple_extent_dims(sp,d,nullptr); J dd=J::arr(); for(int k=0;k<nd;k++)dd.push((long long)d[k]);
        out.push(J::obj().set("name",nmj).set("k","data").set("t",tname(t)).set("d",dd).set("e",elems(o,t,false,H5Sget_simple_extent_npoints(sp))).set("a",attrs(o))); H5Tclose(t);H5Sclose(sp); }
    H5Oclose(o); } }
// what anybody sees who reads the text format: words separated by white space
static J dumpt(const string&f){ ifstream i(f); string w,n; J out=J::arr(); bool good=i.is_open();
    while(good&&i>>w){ long long r=-1,c=-1; J p=J::arr(),d=J::arr(),e=J::arr();
        if(w=="@matrix")good=(bool)(i>>n>>r>>c)&&r>=0&&c>=0; else if(w=="@string")good=(bool)(i>>n>>r)&&r>=0; else good=false;
        if(!good)break; size_t q=0,k; while((k=n.find('/',q))!=string::npos){p.push(n.substr(q,k-q));q=k+1;} p.push(n.substr(q));
        if(w=="@matrix"){d.push(r).push(c);for(long long j=0;j<r*c&&(good=(bool)(i>>n));j++){char*x;double v=strtod(n.c_str(),&x);good=!*x;if(!good)break;e.push(fmt(v));}}
        else for(long long j=0;j<r&&(good=(bool)(i>>n));j++){char*x;long v=strtol(n.c_str(),&x,10);good=!*x;if(!good)break;e.push((int)(unsigned char)v);}
        out.push(J::obj().set("name",p).set("k","data").set("t",w=="@matrix"?"f64":"text").set("d",d).set("e",e).set("a",J::arr())); }
    return good?ok().set("o",out):J::obj().set("k","unreadable"); }
void runCase(const J&c){
    mkdir("w",0755); rmall();
    SFile*h[4]={0,0,0,0}; map<int,string>names; g_faketm=false;
    auto path=[&](const J&o){string e=o.has("ext")?o["ext"].s:o["fmt"].s;return (o["dir"].s=="ok"?string("w/"):string("w/none/"))+"f"+to_string(o["f"].i)+"."+e;};
    for(auto&o:c["ops"].a){
        string op=o["op"].s; J r;
        try{
            SFile*s=o.has("h")?h[o["h"].i]:nullptr;
            if(op=="open"){
                if(o.has("clock")){memset(&g_tm,0,sizeof g_tm);const J&k=o["clock"];g_tm.tm_wday=k["wday"].i;g_tm.tm_mon=k["mon"].i;g_tm.tm_mday=k["mday"].i;g_tm.tm_hour=k["hour"].i;g_tm.tm_min=k["min"].i;g_tm.tm_sec=k["sec"].i;g_tm.tm_year=k["year"].i;g_faketm=true;} else g_faketm=false;
                string f=path(o); if(o["dir"].s=="ok")names[o["f"].i]=f;
                sfile_mode m=o["mode"].s=="r"?SFILE_MODE_READ:o["mode"].s=="u"?SFILE_MODE_UPDATE:SFILE_MODE_WRITE;
                sfile_type t=o["fmt"].s=="h5"?SFILE_TYPE_HDF5:o["fmt"].s=="mat"?SFILE_TYPE_MATLAB:SFILE_TYPE_SDT;
                string via=o["via"].s;
                if(via=="reopen")s->Open(f,m); else if(via=="create")h[o["h"].i]=SFile::Create(f,m); else if(via=="typed")h[o["h"].i]=SFile::Create(f,m,t);
                else{SFile*x=t==SFILE_TYPE_HDF5?(SFile*)new SFile_HDF5:t==SFILE_TYPE_MATLAB?(SFile*)new SFile_MAT:(SFile*)new SFile_SDT; try{x->Open(f,m);}catch(...){delete x;throw;} h[o["h"].i]=x;}
                r=ok();
            }
            else if(op=="close"){s->Close();r=ok();}
            else if(op=="del"){delete s;h[o["h"].i]=nullptr;r=ok();}
            else if(op=="raw"||op=="byhand"){string f="w/f"+to_string(o["f"].i)+"."+(op=="raw"?o["fmt"].s:"sdt");ofstream x(f,ios::binary);x<<uncodes(o["text"]);x.close();names[o["f"].i]=f;r=ok();}
            else if(op=="write"||op=="multi"){doWrite(s,nm(o["name"]),o);r=ok();}
            else if(op=="attr"){if(o["val"]["k"].s=="text")s->WriteAttribute_string(nm(o["ds"]),o["an"].s,uncodes(o["val"]["e"]));else s->WriteAttribute_scalar(nm(o["ds"]),o["an"].s,par<double>(o["val"]["e"][0].s));r=ok();}
            else if(op=="struct"){s->CreateStruct(nm(o["name"]));r=ok();}
            else if(op=="has")r=ok().set("b",(bool)s->HasVariable(nm(o["name"])));
            else if(op=="type")r=ok().set("t",tyname(s->GetDataType(nm(o["name"]),(SFile::sfile_data_type)tynum(o["hint"].s))));
            else if(op=="get")r=doGet(s,nm(o["name"]),o["how"].s);
            else if(op=="getattr"){if(o["how"].s=="string")r=ok().set("d",J::arr()).set("e",codes(s->GetAttributeString(nm(o["ds"]),o["an"].s)));else r=zero(s->GetAttributeScalar(nm(o["ds"]),o["an"].s));}
            else if(op=="getmulti"){ sfilesize_t mx=o["max"].i,nd=0; vector<sfilesize_t>d(mx,0); 
                if(o["how"].s=="linear"){double*p=s->GetMultiArray_linear(nm(o["name"]),mx,nd,d.data()); if(!p)r=J::obj().set("k","null").set("n",(long long)nd); else{size_t n=1;J dd=J::arr();for(size_t i=0;i<nd;i++){n*=d[i];dd.push((long long)d[i]);}r=one(p,n);r.set("d",dd);}}
                else{void*p=s->GetMultiArray(nm(o["name"]),mx,nd,d.data()); if(!p)r=J::obj().set("k","null").set("n",(long long)nd); else{J e=J::arr(),dd=J::arr();for(size_t i=0;i<nd;i++)dd.push((long long)d[i]);if(nd)walk(p,d.data(),nd,e);r=ok().set("d",dd).set("e",e);
                    size_t n=1;for(size_t i=0;i<nd;i++)n*=d[i]; if(n){const double*b=base(p,nd);junk((double*)b,n);} }}
            }
            else if(op=="hash")r=ok().set("hash",names.count(o["f"].i)?hashf(names[o["f"].i]):string("-"));
            else if(op=="dump"&&names[o["f"].i].size()>4&&(names[o["f"].i].substr(names[o["f"].i].size()-4)==".sdt"||names[o["f"].i].substr(names[o["f"].i].size()-4)==".out"))r=dumpt(names[o["f"].i]);
            else if(op=="dump"){ hid_t f=H5Fopen(names[o["f"].i].c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); if(f<0)r=J::obj().set("k","unreadable"); else{ hid_t g=H5Gopen2(f,"/",H5P_DEFAULT); J out=J::arr(); dump5(g,J::arr(),out); H5Gclose(g); H5Fclose(f); r=ok().set("o",out); } }
            else if(op=="ftype")r=ok().set("t",ftname(SFile::TypeOfFile(o["file"].s)));
            else if(op=="unsup"){ SFile*x=o["how"].s=="ext"?SFile::Create("w/"+o["file"].s,SFILE_MODE_WRITE):SFile::Create("w/"+o["file"].s,SFILE_MODE_WRITE,SFILE_TYPE_UNKNOWN); (void)x; r=ok(); }
            else if(op=="header"){ ifstream i(names[o["f"].i],ios::binary); string t(116,'\0'); i.read(&t[0],116); size_t got=i.gcount(); unsigned char m[12]={0}; i.read((char*)m,12); size_t e=t.find_last_not_of(' ');
                J mg=J::arr();for(int k=0;k<12;k++)mg.push((int)m[k]); r=ok().set("text",e==string::npos?"":t.substr(0,e+1)).set("len",(long long)got).set("magic",mg);}
            else{fprintf(stderr,"harness: op %s\n",op.c_str());_Exit(96);}
        }
        catch(SFileException&){r=J::obj().set("k","lib");}
        catch(SOFTLibException&){r=J::obj().set("k","lib");}
        catch(H5::Exception&){r=J::obj().set("k","other");}
        catch(std::exception&){r=J::obj().set("k","other");}
        J e=o; e.set("res",r); emit(e);
    }
    for(int i=0;i<4;i++)delete h[i];
    rmall();
}
