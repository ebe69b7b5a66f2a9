// Driver for images (G05).
#include "hcommon.h"
#include <cmath>
#include <cstdio>
#include <limits>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/ImageGenerator/ImageGeneratorPPM.h>
#ifdef HAS_LIBPNG
#include <png.h>
#include <softlib/ImageGenerator/ImageGeneratorPNG.h>
#endif
using namespace std;
static double val(const J&j,double D,const string&ext){
    long long n=j.i; double inf=numeric_limits<double>::infinity();
    if(n==1000000000)return ext=="inf"?inf:ext=="huge"?1e300:3e9; if(n==-1000000000)return ext=="inf"?-inf:ext=="huge"?-1e300:-3e9;
    if(n==999999999)return nan("");
    return n/D;
}
static J readPPM(const string&f){
    J r=J::obj(); ifstream in(f); string m; long long w,h,mx; if(!(in>>m>>w>>h>>mx)||m!="P3"||mx!=255)return r.set("k","bad");
    J px=J::arr(); long long x; J p=J::arr(); while(in>>x){p.push(x); if(p.size()==3){px.push(p);p=J::arr();}}
    if(p.size()||!in.eof())return r.set("k","bad");
    return r.set("k","ok").set("w",w).set("h",h).set("px",px);
}
static J readPNG(const string&f){
    J r=J::obj();
#ifdef HAS_LIBPNG
    png_image im; memset(&im,0,sizeof im); im.version=PNG_IMAGE_VERSION;
    if(!png_image_begin_read_from_file(&im,f.c_str()))return r.set("k","bad");
    bool rgb=im.format==PNG_FORMAT_RGB; im.format=PNG_FORMAT_RGB; vector<unsigned char> b(PNG_IMAGE_SIZE(im));
    if(!png_image_finish_read(&im,nullptr,b.data(),0,nullptr)||!rgb)return r.set("k","bad");
    J px=J::arr(); for(size_t i=0;i+2<b.size();i+=3)px.push(J::arr().push((int)b[i]).push((int)b[i+1]).push((int)b[i+2]));
    r.set("k","ok").set("w",(long long)im.width).set("h",(long long)im.height).set("px",px);
#endif
    return r;
}
void runCase(const J&c){
    ImageGenerator*g[2]={new ImageGeneratorPPM(),nullptr};
#ifdef HAS_LIBPNG
    g[1]=new ImageGeneratorPNG();
#endif
    for(auto&o:c["ops"].a){ J e=o; string fmt=o["fmt"].s,how=o["how"].s,map=o["map"].s;
        if(fmt=="png"&&!g[1]){emit(e.set("res",J::obj().set("k","none")));continue;}
        double D=o["D"].i; vector<slibreal_t> v; for(auto&x:o["vals"].a)v.push_back(val(x,D,o["ext"].s)); auto copy=v;
        vector<ImageColormap::scolor_t> cs; for(auto&q:o["colors"].a)cs.push_back({(unsigned)q.a[0].i,(unsigned)q.a[1].i,(unsigned)q.a[2].i});
        ImageColormap*cm=map=="own"?new ImageColormap(cs.data(),cs.size(),o["a"].i/D,o["b"].i/D):nullptr;
        string file=o["file"].s=="ok"?string("img.")+fmt:o["file"].s; unlink("img.ppm");unlink("img.png");
        auto ty=fmt=="png"?ImageGenerator::IMAGE_TYPE_PNG:ImageGenerator::IMAGE_TYPE_PPM; unsigned nr=o["rows"].i,nc=o["cols"].i;
        J res; try{
            ImageGenerator*G=g[fmt=="png"];
            if(how=="gen"){ if(map=="own")ImageGenerator::gen(ty,file,v.data(),nr,nc,cm); else if(map=="default")ImageGenerator::gen(ty,file,v.data(),nr,nc); else ImageGenerator::gen(ty,file,v.data(),nr,nc,map=="gray"?ImageGenerator::COLORMAP_GRAY:ImageGenerator::COLORMAP_GERIMAP); }
            else { if(map=="own")G->SaveImage(file,v.data(),nr,nc,cm); else if(map=="gray")((ImageGenerator*)G)->SaveImage(file,v.data(),nr,nc,ImageGenerator::COLORMAP_GRAY); else G->ImageGenerator::SaveImage(file,v.data(),nr,nc,ImageGenerator::COLORMAP_GERIMAP); }
            res=o["file"].s!="ok"?J::obj().set("k","noexc"):fmt=="png"?readPNG(file):readPPM(file);
        }catch(SOFTLibException&x){res=J::obj().set("k","exc");}
        if(memcmp(v.data(),copy.data(),v.size()*sizeof(slibreal_t)))res=J::obj().set("k","input changed");
        emit(e.set("res",res));
    }
}
