// Common main loop: h_xxx <cases.ndjson> <out.ndjson>
// Each case is run in order; one output line per event: {"c":<id>,"e":{...}}; after the last
// event of a case {"c":<id>,"end":1}. A crash therefore leaves an unfinished case behind.
#pragma once
#include "vjson.h"
#include <csignal>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
static int g_out=-1; static long long g_case=-1;
static void rawout(const std::string&l){size_t o=0;while(o<l.size()){ssize_t n=write(g_out,l.data()+o,l.size()-o);if(n<=0)_Exit(96);o+=n;}}
inline void emit(const J&e){rawout("{\"c\":"+std::to_string(g_case)+",\"e\":"+e.dump()+"}\n");}
void runCase(const J&c);
static void onalarm(int){_Exit(97);}
#ifndef CASE_TIMEOUT
#define CASE_TIMEOUT 20
#endif
int main(int argc,char**argv){
    if(argc<3)return 96;
    std::ifstream in(argv[1]); g_out=open(argv[2],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(!in||g_out<0)return 96;
    signal(SIGALRM,onalarm);
    std::string line;
    while(std::getline(in,line)){
        if(line.empty())continue;
        const char*p=line.c_str(); J c=J::parse(p); g_case=c["id"].i;
        alarm(CASE_TIMEOUT); runCase(c); alarm(0);
        rawout("{\"c\":"+std::to_string(g_case)+",\"end\":1}\n");
    }
    _Exit(0);
}
