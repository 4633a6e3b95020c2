// Property harness: choice-sequence generator, case context, NTL <-> reference conversions.
#pragma once
#ifndef PML_FLINT
#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/matrix.h>
#endif
#include <map>
#include <cstring>
#include <memory>
#include <functional>
#include <stdexcept>
#include "ref.h"
typedef uint64_t u64;
struct Failure { std::string msg; };
struct Discard {};
[[noreturn]] inline void FAIL(const std::string&m){ throw Failure{m}; }
#define CHECK(c,m) do{ if(!(c)) FAIL(std::string(m)); }while(0)

inline u64 splitmix(u64&s){ u64 z=(s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
struct Rng { u64 s; explicit Rng(u64 x):s(x){ splitmix(s);} u64 operator()(){ return splitmix(s);} u64 below(u64 n){ return n?(*this)()%n:0; } };

// Every random decision goes through draw(): a case is the sequence of its decisions,
// which is what gets replayed and shrunk (smaller values = simpler case).
#ifdef PML_MT
extern thread_local void(*mt_yield)();   // called at every decision: lets the concurrency check switch to another session
#endif
struct Gen {
  bool replay=false; std::vector<u64> in; size_t pos=0; u64 s=0;
  u64*log=nullptr; size_t logcap=0; size_t*loglen=nullptr; std::vector<u64> out;
  u64 draw(u64 n){ // in [0,n)
#ifdef PML_MT
    if(mt_yield) mt_yield();
#endif
    u64 v; if(n<=1) v=0; else if(replay){ v=pos<in.size()?in[pos]:0; if(v>=n) v=v%n; } else v=(n==~0ULL)?splitmix(s):splitmix(s)%n;
    pos++; out.push_back(v); if(log&&out.size()<=logcap){ log[out.size()-1]=v; *loglen=out.size(); } return v; }
  long range(long lo,long hi){ if(hi<=lo) return lo; return lo+(long)draw((u64)(hi-lo+1)); }
  bool coin(u64 num,u64 den){ return draw(den)>=den-num; } // 0 => false
  u64 seed32(){ return draw(1ULL<<32); }
  template<class T> T pick(std::initializer_list<T> l){ return *(l.begin()+draw(l.size())); }
  template<class T> T pick(const std::vector<T>&l){ return l[draw(l.size())]; }
  // skewed size in [lo,hi]: mostly small, sometimes anywhere
  long size(long lo,long hi){ if(hi<=lo){ return lo; } u64 m=draw(8); long span=hi-lo;
    if(m<3) return lo+(long)draw(std::min<long>(span,5)+1); if(m<6) return lo+(long)draw(std::min<long>(span,std::max<long>(8,span/4))+1); return lo+(long)draw(span+1); }
};
struct Case {
  bool nontrivial=false,thrown=false; std::string desc; std::vector<std::string> tags; bool verbose=false; char*live=nullptr; size_t livecap=0;
  void sync(){ if(live){ size_t n=std::min(desc.size(),livecap-1); memcpy(live,desc.data(),n); live[n]=0; } }
  void tag(const std::string&t){ tags.push_back(t); }
  template<class A> void note(const char*k,const A&v){ std::ostringstream o; o<<k<<"="<<v<<" "; desc+=o.str(); sync(); }
};
struct Sub { const char*name; void(*fn)(Gen&,Case&); long quick; long thorough; long batch; };
struct Known { const char*id; void(*fn)(); };   // deterministic reproduction of a listed finding: throws/crashes while the defect exists
extern const char* PROP_RULE; extern std::vector<Sub> SUBS; extern std::vector<Known> KNOWN; extern std::vector<std::string> ASSUMPTIONS;

// ---------- moduli ----------
enum { F_TINY=1, F_SMALL=2, F_MED=4, F_BIG=8, F_FFT=16, F_USERFFT=32, F_FULL=64, F_ALL=63, F_LARGE=F_MED|F_BIG|F_FFT|F_USERFFT };
struct Field { u64 p; int kind; int idx; const char*name()const{ switch(kind){case F_TINY:return "tiny";case F_SMALL:return "small";case F_MED:return "med";case F_BIG:return "big";case F_FFT:return "fft";case F_FULL:return "full";default:return "ufft";} } };
inline bool isprime(u64 n){ if(n<2) return false; for(u64 q:{2,3,5,7,11,13,17,19,23,29,31,37}){ if(n%q==0) return n==q; }
  u64 d=n-1; int r=0; while(!(d&1)){d>>=1;r++;} u64 sv=ref::P; ref::P=n; bool ok=true;
  for(u64 a:{2,3,5,7,11,13,17,19,23,29,31,37}){ u64 x=ref::pw(a,d); if(x==1||x==n-1) continue; bool c=true; for(int i=1;i<r&&c;i++){ x=ref::mul(x,x); if(x==n-1) c=false; } if(c){ok=false;break;} }
  ref::P=sv; return ok; }
inline u64 nextprime(u64 n){ while(!isprime(n)) n++; return n; }
inline u64 prevprime(u64 n){ while(!isprime(n)) n--; return n; }
// user FFT primes with two-adic valuation >= 14
inline const std::vector<u64>& userfft(){ static std::vector<u64> L; if(L.empty()){ for(u64 p:{65537ULL,786433ULL,5767169ULL,7340033ULL,23068673ULL,104857601ULL,167772161ULL,469762049ULL,998244353ULL,2013265921ULL,2281701377ULL}) L.push_back(p);
    for(int b:{33,40,49,50,52,56,59}){ u64 step=1ULL<<20; u64 c=(1ULL<<b)+1; while(!isprime(c)) c+=step; L.push_back(c);} { u64 step=1ULL<<20, c=(1ULL<<60)-step+1; while(!isprime(c)) c-=step; L.push_back(c);} } return L; }
#ifdef PML_FLINT
#include "fl.h"
#else
inline void set_field(const Field&f){ if(f.kind==F_FFT) NTL::zz_p::FFTInit(f.idx); else if(f.kind==F_USERFFT) NTL::zz_p::UserFFTInit((long)f.p); else NTL::zz_p::init((long)f.p); ref::P=(u64)NTL::zz_p::modulus(); }
inline Field gen_field(Gen&g,int mask=F_ALL,u64 minp=0){
  std::vector<int> ks; for(int k:{F_SMALL,F_FFT,F_MED,F_BIG,F_USERFFT,F_TINY}) if(mask&k) ks.push_back(k);
  Field f; f.kind=ks[g.draw(ks.size())]; f.idx=0;
  switch(f.kind){
   case F_TINY: { std::vector<u64> L={2,3,5,7,11,13,17,19,23,31,61,97}; L.erase(std::remove_if(L.begin(),L.end(),[&](u64 q){return q<minp;}),L.end()); f.p=L.empty()?nextprime(minp):L[g.draw(L.size())]; break; }
   case F_SMALL: { u64 lo=std::max<u64>(minp,101); f.p=nextprime(lo+g.draw(std::max<u64>(1,(1ULL<<(8+g.draw(9)))))); break; }     // up to ~2^17
   case F_MED: { int b=(int)g.range(18,32); u64 x=(1ULL<<b)+g.draw(1ULL<<(b-1)); f.p=g.coin(1,4)?prevprime((1ULL<<b)-1):nextprime(x); break; }
   case F_BIG: { int lo=33; while(lo<55&&(1ULL<<(lo-1))<minp) lo++; int b=(int)g.range(lo,59); u64 m=g.draw(6); f.p=m==0?prevprime((1ULL<<60)-1):m==1?prevprime((1ULL<<b)-1):nextprime((1ULL<<b)+g.draw(1ULL<<(b-1))); break; }
   case F_FFT: f.idx=(int)g.draw(4); NTL::zz_p::FFTInit(f.idx); f.p=NTL::zz_p::modulus(); break;
   default: { auto L=userfft(); L.erase(std::remove_if(L.begin(),L.end(),[&](u64 q){return q<minp;}),L.end()); f.p=L[g.draw(L.size())]; }
  }
  if(f.p<minp) f.p=nextprime(minp);
  set_field(f); return f; }
inline void note_field(Case&c,const Field&f){ std::ostringstream o; o<<"p="<<f.p<<"("<<f.name()<<") "; c.desc+=o.str(); c.sync(); c.tag(std::string("mod:")+f.name()); }

// ---------- conversions (checking canonical representation) ----------
inline u64 get(const NTL::zz_p&a){ long v=a._zz_p__rep; CHECK(v>=0&&(u64)v<ref::P,"field element not reduced: "+std::to_string(v)); return (u64)v; }
inline ref::Poly get(const NTL::zz_pX&a){ ref::Poly r; long n=a.rep.length(); for(long i=0;i<n;i++) r.push_back(get(a.rep[i])); CHECK(n==0||r[n-1]!=0,"polynomial not normalized (leading zero coefficient)"); return r; }
inline ref::Vec get(const NTL::Vec<NTL::zz_p>&a){ ref::Vec r; for(long i=0;i<a.length();i++) r.push_back(get(a[i])); return r; }
inline ref::CMat get(const NTL::Mat<NTL::zz_p>&a){ ref::CMat r(a.NumRows(),a.NumCols()); for(long i=0;i<r.r;i++){ CHECK(a[i].length()==r.c,"ragged matrix"); for(long j=0;j<r.c;j++) r.at(i,j)=get(a[i][j]); } return r; }
inline ref::PMat get(const NTL::Mat<NTL::zz_pX>&a){ ref::PMat r(a.NumRows(),a.NumCols()); for(long i=0;i<r.r;i++){ CHECK(a[i].length()==r.c,"ragged matrix"); for(long j=0;j<r.c;j++) r.at(i,j)=get(a[i][j]); } return r; }
inline std::vector<ref::Poly> get(const NTL::Vec<NTL::zz_pX>&a){ std::vector<ref::Poly> r; for(long i=0;i<a.length();i++) r.push_back(get(a[i])); return r; }
inline NTL::zz_p Z(u64 a){ NTL::zz_p x; x._zz_p__rep=(long)a; return x; }
inline NTL::zz_pX put(const ref::Poly&a){ NTL::zz_pX r; r.rep.SetLength(a.size()); for(size_t i=0;i<a.size();i++) r.rep[i]._zz_p__rep=(long)a[i]; r.normalize(); return r; }
inline NTL::Vec<NTL::zz_p> putv(const ref::Vec&a){ NTL::Vec<NTL::zz_p> r; r.SetLength(a.size()); for(size_t i=0;i<a.size();i++) r[i]=Z(a[i]); return r; }
inline NTL::Mat<NTL::zz_p> put(const ref::CMat&a){ NTL::Mat<NTL::zz_p> r; r.SetDims(a.r,a.c); for(long i=0;i<a.r;i++) for(long j=0;j<a.c;j++) r[i][j]=Z(a.at(i,j)); return r; }
inline NTL::Mat<NTL::zz_pX> put(const ref::PMat&a){ NTL::Mat<NTL::zz_pX> r; r.SetDims(a.r,a.c); for(long i=0;i<a.r;i++) for(long j=0;j<a.c;j++) r[i][j]=put(a.at(i,j)); return r; }
inline NTL::Vec<NTL::zz_pX> putpv(const std::vector<ref::Poly>&a){ NTL::Vec<NTL::zz_pX> r; r.SetLength(a.size()); for(size_t i=0;i<a.size();i++) r[i]=put(a[i]); return r; }
inline std::string s(const ref::Poly&a){ return ref::pstr(a); }

#endif
// ---------- value generators ----------
inline u64 gen_elem(Gen&g){ switch(g.draw(8)){ case 0: return 0; case 1: return 1%ref::P; case 2: return ref::P-1; case 3: return std::min<u64>(2,ref::P-1); default: { Rng r(g.seed32()); return r()%ref::P; } } }
inline u64 gen_nz(Gen&g){ u64 x=gen_elem(g); if(x==0) x=1%ref::P; return x; }
// list of n field elements with a style
inline ref::Vec gen_list(Gen&g,long n){ ref::Vec v(n,0); if(n<=0) return v; u64 st=g.draw(10);
  switch(st){ case 0: break; case 1: { Rng r(g.seed32()); for(auto&x:v) x=r.below(3)==0?r()%ref::P:0; break; } case 2: for(auto&x:v) x=ref::P-1; break;
   case 3: v[n-1]=1%ref::P; break; case 4: v[0]=1%ref::P; break; case 5: { Rng r(g.seed32()); long k=(long)r.below(n+1); for(long i=0;i<k;i++) v[i]=r()%ref::P; break; }
   case 6: { Rng r(g.seed32()); long k=(long)r.below(n+1); for(long i=k;i<n;i++) v[i]=r()%ref::P; break; }
   default: { Rng r(g.seed32()); for(auto&x:v) x=r()%ref::P; } } return v; }
inline ref::Poly gen_poly(Gen&g,long n){ ref::Poly p=gen_list(g,n); ref::norm(p); return p; }  // degree < n
inline ref::Poly gen_dense(Gen&g,long n){ Rng r(g.seed32()); ref::Poly p(n<0?0:n); for(auto&x:p) x=r()%ref::P; ref::norm(p); return p; }
inline ref::CMat gen_cmat(Gen&g,long r,long c){ ref::CMat A(r,c); if(r*c==0) return A; u64 st=g.draw(8); Rng q(g.seed32());
  auto rnd=[&]{ return q()%ref::P; };
  switch(st){ case 0: break; case 1: for(auto&x:A.a) x=q.below(3)==0?rnd():0; break; case 2: for(auto&x:A.a) x=ref::P-1; break;
   case 3: { long k=(long)q.below(std::min(r,c)+1); ref::CMat U(r,k),V(k,c); for(auto&x:U.a) x=rnd(); for(auto&x:V.a) x=rnd(); A=ref::cmul(U,V); break; }
   case 4: for(long i=0;i<std::min(r,c);i++) A.at(i,i)=1%ref::P; break;
   default: for(auto&x:A.a) x=rnd(); } return A; }
// polynomial matrix, entries of degree < d (d>=0)
inline ref::PMat gen_pmat(Gen&g,long r,long c,long d,std::string*style=nullptr){
  ref::PMat A(r,c); if(r*c==0||d<=0) { return A; } u64 st=g.draw(12); Rng q(g.seed32()); auto dense=[&](long n){ ref::Poly p(n); for(auto&x:p) x=q()%ref::P; ref::norm(p); return p; };
  const char*nm="dense";
  switch(st){
   case 0: nm="zero"; break;
   case 1: nm="sparse"; for(auto&p:A.a) if(q.below(3)==0) p=dense(1+q.below(d)); break;
   case 2: nm="maxcoef"; for(auto&p:A.a) p=ref::Poly(d,ref::P-1); break;
   case 3: nm="entrydeg"; for(auto&p:A.a) p=dense(q.below(d+1)); break;
   case 4: { nm="rowdeg"; for(long i=0;i<r;i++){ long e=q.below(d+1); for(long j=0;j<c;j++) A.at(i,j)=dense(e);} break; }
   case 5: { nm="coldeg"; for(long j=0;j<c;j++){ long e=q.below(d+1); for(long i=0;i<r;i++) A.at(i,j)=dense(e);} break; }
   case 6: { nm="lowrank"; long k=std::min(r,c)>1?1+q.below(std::min(r,c)-1):1; long e=(d+1)/2; ref::PMat U(r,k),V(k,c); for(auto&p:U.a) p=dense(e); for(auto&p:V.a) p=dense(d-e+1); A=ref::mmul(U,V); break; }
   case 7: { nm="repeat"; for(long i=0;i<r;i++) for(long j=0;j<c;j++) A.at(i,j)=(i>0&&q.below(2))?A.at(i-1,j):dense(d); if(r>1){ long i=q.below(r),k=q.below(r); for(long j=0;j<c;j++) A.at(i,j)=A.at(k,j);} break; }
   case 8: { nm="zerorows"; for(auto&p:A.a) p=dense(d); long i=q.below(r); for(long j=0;j<c;j++) A.at(i,j).clear(); if(q.below(2)){ long j=q.below(c); for(i=0;i<r;i++) A.at(i,j).clear(); } break; }
   case 9: { nm="xmultiple"; long v=q.below(d); for(auto&p:A.a){ p=dense(d); for(long k=0;k<v&&k<(long)p.size();k++) p[k]=0; ref::norm(p);} break; }
   default: for(auto&p:A.a) p=dense(d); }
  if(style) *style=nm; return A; }
// same but never uses degenerate styles
inline ref::PMat gen_pmat_dense(Gen&g,long r,long c,long d){ ref::PMat A(r,c); Rng q(g.seed32()); for(auto&p:A.a){ p.resize(d<0?0:d); for(auto&x:p) x=q()%ref::P; ref::norm(p);} return A; }
#define NONTRIVIAL(c,cond) do{ if(cond) (c).nontrivial=true; }while(0)
