// Minimal JSON value, parser and printer for the harnesses (integers and strings only).
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
struct J {
    enum T {NUL,BOOL,INT,STR,ARR,OBJ} t=NUL;
    long long i=0; std::string s; std::vector<J> a; std::vector<std::pair<std::string,J>> o;
    J(){} J(bool b):t(BOOL),i(b){} J(int v):t(INT),i(v){} J(long v):t(INT),i(v){} J(long long v):t(INT),i(v){}
    J(unsigned v):t(INT),i(v){} J(unsigned long v):t(INT),i((long long)v){} J(unsigned long long v):t(INT),i((long long)v){}
    J(const char *c):t(STR),s(c){} J(const std::string &c):t(STR),s(c){}
    static J arr(){J j;j.t=ARR;return j;} static J obj(){J j;j.t=OBJ;return j;}
    J& push(const J&v){a.push_back(v);return *this;}
    J& set(const std::string&k,const J&v){t=OBJ;for(auto&p:o)if(p.first==k){p.second=v;return *this;}o.emplace_back(k,v);return *this;}
    bool has(const std::string&k)const{for(auto&p:o)if(p.first==k)return true;return false;}
    const J& operator[](const std::string&k)const{for(auto&p:o)if(p.first==k)return p.second;fprintf(stderr,"harness: no key %s\n",k.c_str());_Exit(96);}
    const J& operator[](const char*k)const{return (*this)[std::string(k)];}
    const J& operator[](size_t k)const{if(k>=a.size()){fprintf(stderr,"harness: index\n");_Exit(96);}return a[k];}
    const J& operator[](int k)const{return (*this)[(size_t)k];}
    size_t size()const{return a.size();}
    std::string dump()const{std::string r;put(r);return r;}
    void put(std::string&r)const{
        switch(t){case NUL:r+="null";break;case BOOL:r+=i?"true":"false";break;case INT:r+=std::to_string(i);break;
        case STR:r+='"';for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;}else r+=c;}r+='"';break;
        case ARR:r+='[';for(size_t k=0;k<a.size();k++){if(k)r+=',';a[k].put(r);}r+=']';break;
        case OBJ:r+='{';for(size_t k=0;k<o.size();k++){if(k)r+=',';J(o[k].first).put(r);r+=':';o[k].second.put(r);}r+='}';break;}
    }
    static J parse(const char*&p){
        while(*p==' '||*p=='\n'||*p=='\t'||*p=='\r')p++;
        J j;
        if(*p=='{'){j.t=OBJ;p++;for(;;){while(*p==' '||*p==',')p++;if(*p=='}'){p++;break;}J k=parse(p);while(*p==' '||*p==':')p++;j.o.emplace_back(k.s,parse(p));}}
        else if(*p=='['){j.t=ARR;p++;for(;;){while(*p==' '||*p==',')p++;if(*p==']'){p++;break;}j.a.push_back(parse(p));}}
        else if(*p=='"'){j.t=STR;p++;while(*p!='"'){if(*p=='\\'){p++;switch(*p){case 'n':j.s+='\n';break;case 't':j.s+='\t';break;case 'r':j.s+='\r';break;case 'b':j.s+='\b';break;case 'f':j.s+='\f';break;
            case 'u':{char b[5]={p[1],p[2],p[3],p[4],0};j.s+=(char)strtol(b,0,16);p+=4;}break;default:j.s+=*p;}p++;}else j.s+=*p++;}p++;}
        else if(*p=='t'){j=J(true);p+=4;}else if(*p=='f'){j=J(false);p+=5;}else if(*p=='n'){p+=4;}
        else{char*e;j=J((long long)strtoll(p,&e,10));if(e==p){fprintf(stderr,"harness: bad json at %.20s\n",p);_Exit(96);}p=e;}
        return j;
    }
};
inline J codes(const std::string&s){J j=J::arr();for(unsigned char c:s)j.push((int)c);return j;}
inline std::string uncodes(const J&j){std::string s;for(auto&c:j.a)s+=(char)c.i;return s;}
