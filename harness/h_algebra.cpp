// Driver for vectors and matrices (V01, V02): programs over registers, all registers shown after every step.
#include "hcommon.h"
#include <cmath>
#include <softlib/Matrix.h>
#include <softlib/Vector.h>
using namespace std;
template<class T> static J num(T v){double d=(double)v; if(d==nearbyint(d)&&fabs(d)<1e9)return J((long long)d); return J(2000000007LL);}
template<unsigned N,class T> static J vec(const Vector<N,T>&v){J a=J::arr();for(unsigned i=0;i<N;i++)a.push(num(v[i]));return a;}
template<unsigned M,unsigned N,class T> static J mat(const Matrix<M,N,T>&A){J a=J::arr();for(unsigned i=0;i<M;i++){J r=J::arr();for(unsigned j=0;j<N;j++)r.push(A(i,j)==A(i*N+j)?num(A(i,j)):J(2000000006LL));a.push(r);}return a;}
static J same(bool b){return J(b?"self":"other");}
template<unsigned N,class T> static void vprog(const J&c){
    Vector<N,T> v[4];
    for(auto&o:c["ops"].a){ J e=o,ret=J("none"); string op=o["op"].s; int d=o["d"].i,a=o["a"].i,b=o["b"].i,i=o["i"].i; T s=(T)o["s"].i; const Vector<N,T>&ca=v[a],&cb=v[b];
        if(op=="set"){T x[N];for(unsigned k=0;k<N;k++)x[k]=(T)o["x"].a[k].i; if(o["how"].s=="assign")ret=same(&(v[d]=(const T*)x)==&v[d]); else if(o["how"].s=="index"){for(unsigned k=0;k<N;k++)v[d][k]=x[k];} else {Vector<N,T> t(x);v[d]=t;}}
        else if(op=="fill")ret=same(&(v[d]=s)==&v[d]);
        else if(op=="fillel")ret=same(&(v[d]=v[a][i])==&v[d]);
        else if(op=="copy")ret=same(&(v[d]=ca)==&v[d]);
        else if(op=="construct"){Vector<N,T> t(ca);v[d]=t;}
        else if(op=="convert"){Vector<N,long> t(ca);Vector<N,T> u(t);v[d]=u;}
        else if(op=="zero"){Vector<N,T> t;v[d]=t;}
        else if(op=="addeq")ret=same(&(v[d]+=ca)==&v[d]);
        else if(op=="subeq")ret=same(&(v[d]-=ca)==&v[d]);
        else if(op=="addeqs")ret=same(&(v[d]+=s)==&v[d]);
        else if(op=="subeqs")ret=same(&(v[d]-=s)==&v[d]);
        else if(op=="muleqs")ret=same(&(v[d]*=s)==&v[d]);
        else if(op=="diveqs")ret=same(&(v[d]/=s)==&v[d]);
        else if(op=="addeqel")ret=same(&(v[d]+=v[a][i])==&v[d]);
        else if(op=="subeqel")ret=same(&(v[d]-=v[a][i])==&v[d]);
        else if(op=="muleqel")ret=same(&(v[d]*=v[a][i])==&v[d]);
        else if(op=="diveqel")ret=same(&(v[d]/=v[a][i])==&v[d]);
        else if(op=="neg")v[d]=-ca;
        else if(op=="add")v[d]=ca+cb;
        else if(op=="sub")v[d]=ca-cb;
        else if(op=="adds")v[d]=ca+s; else if(op=="sadd")v[d]=s+ca; else if(op=="subs")v[d]=ca-s; else if(op=="ssub")v[d]=s-ca;
        else if(op=="muls")v[d]=ca*s; else if(op=="smul")v[d]=s*ca; else if(op=="divs")v[d]=ca/s;
        else if(op=="dot")ret=num(ca.Dot(cb));
        else if(op=="norm"){double n=(double)ca.Norm();ret=J(n>=0&&n<1e6?(long long)floor(n+1e-9):-1LL);}
        else if(op=="normalize"){ if constexpr(is_same<T,double>::value){Vector<N,T> t(ca);t.Normalize();ret=J::arr();for(unsigned k=0;k<N;k++)ret.push(fabs(t[k])<2000?(long long)nearbyint(t[k]*1e6):2000000007LL);}else ret=J("skip"); }
        else if(op=="array"){T x[N+1];x[N]=(T)77;ca.ToArray(x);ret=J::arr();for(unsigned k=0;k<=N;k++)ret.push(num(x[k]));}
        else if(op=="size")ret=J((long long)ca.size());
        else if(op=="cross"){ if constexpr(N==3){ if(o["how"].s=="ref")ret=same(&Vector<3,T>::Cross(ca,cb,v[d])==&v[d]); else v[d]=Vector<3,T>::Cross(ca,cb); } else { try{Vector<N,T>::Cross(ca,cb,v[d]);ret=J("noexc");}catch(SOFTLibException&){ret=J("exc");} } }
        else _Exit(96);
        J r=J::arr(); for(auto&x:v)r.push(vec(x)); emit(e.set("ret",ret).set("regs",r));
    }
}
template<unsigned M,unsigned N,unsigned K,class T> static void mprog(const J&c){
    Matrix<M,N,T> A[3]; Matrix<N,K,T> B[2]; Matrix<M,K,T> C; Vector<N,T> x[2]; Vector<M,T> y[2];
    for(auto&o:c["ops"].a){ J e=o,ret=J("none"); string op=o["op"].s; int d=o["d"].i,a=o["a"].i,b=o["b"].i; T s=(T)o["s"].i; const Matrix<M,N,T>&cA=A[a],&cB=A[b];
        vector<T> q; if(o.has("x"))for(auto&k:o["x"].a)q.push_back((T)k.i);
        if(op=="seta"){ if(o["how"].s=="rows"){const T*rows[M];for(unsigned i=0;i<M;i++)rows[i]=q.data()+i*N;Matrix<M,N,T> t(rows);A[d]=t;} else if(o["how"].s=="index"){for(unsigned i=0;i<M;i++)for(unsigned j=0;j<N;j++)A[d](i,j)=q[i*N+j];} else if(o["how"].s=="lin"){for(unsigned i=0;i<M*N;i++)A[d](i)=q[i];} else {Matrix<M,N,T> t((const T*)q.data());A[d]=t;} }
        else if(op=="setb"){Matrix<N,K,T> t((const T*)q.data());B[d]=t;}
        else if(op=="setx")x[d]=(const T*)q.data(); else if(op=="sety")y[d]=(const T*)q.data();
        else if(op=="copy")ret=same(&(A[d]=cA)==&A[d]); else if(op=="construct"){Matrix<M,N,T> t(cA);A[d]=t;} else if(op=="zero"){Matrix<M,N,T> t;A[d]=t;}
        else if(op=="addeq")ret=same(&(A[d]+=cA)==&A[d]); else if(op=="subeq")ret=same(&(A[d]-=cA)==&A[d]);
        else if(op=="addeqs")ret=same(&(A[d]+=s)==&A[d]); else if(op=="subeqs")ret=same(&(A[d]-=s)==&A[d]); else if(op=="muleqs")ret=same(&(A[d]*=s)==&A[d]);
        else if(op=="addeqel")ret=same(&(A[d]+=A[a](o["i"].i))==&A[d]); else if(op=="muleqel")ret=same(&(A[d]*=A[a](o["i"].i))==&A[d]);
        else if(op=="neg")A[d]=-cA; else if(op=="add")A[d]=cA+cB; else if(op=="sub")A[d]=cA-cB;
        else if(op=="adds")A[d]=cA+s; else if(op=="sadd")A[d]=s+cA; else if(op=="subs")A[d]=cA-s; else if(op=="ssub")A[d]=s-cA; else if(op=="muls")A[d]=cA*s; else if(op=="smul")A[d]=s*cA;
        else if(op=="mul")C=cA*(const Matrix<N,K,T>&)B[b];
        else if(op=="muleq"){ if constexpr(M==N)ret=same(&(A[d]*=cA)==&A[d]); else ret=J("skip"); }
        else if(op=="mx")y[d]=cA*(const Vector<N,T>&)x[b]; else if(op=="ym")x[d]=(const Vector<M,T>&)y[b]*cA;
        else if(op=="outer"){Matrix<M,N,T> t(y[a],x[b]);A[d]=t;}
        else if(op=="size")ret=J::arr().push((long long)cA.Rows()).push((long long)cA.Cols()).push((long long)B[0].Rows()).push((long long)B[0].Cols());
        else _Exit(96);
        J r=J::obj(); J ra=J::arr(),rb=J::arr(),rx=J::arr(),ry=J::arr(); for(auto&z:A)ra.push(mat(z)); for(auto&z:B)rb.push(mat(z)); for(auto&z:x)rx.push(vec(z)); for(auto&z:y)ry.push(vec(z));
        emit(e.set("ret",ret).set("regs",r.set("A",ra).set("B",rb).set("C",mat(C)).set("x",rx).set("y",ry)));
    }
}
template<class T> static bool pick(const J&c){
    string s=c["shape"].s;
    #define V(n) if(s==#n){vprog<n,T>(c);return true;}
    V(1) V(2) V(3) V(4) V(6)
    #define X(m,n,k) if(s==#m "x" #n "x" #k){mprog<m,n,k,T>(c);return true;}
    X(1,1,1) X(2,2,2) X(3,3,3) X(2,3,1) X(3,2,4) X(1,3,2) X(4,1,3) X(4,4,2)
    return false;
}
void runCase(const J&c){ bool ok=c["ty"].s=="int"?pick<int>(c):pick<double>(c); if(!ok)_Exit(96); }
