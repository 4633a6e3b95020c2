// Independent reference arithmetic: no NTL arithmetic is used here.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <sstream>
#include <algorithm>
namespace ref {
typedef uint64_t u64; typedef unsigned __int128 u128; typedef int64_t i64;
#ifdef PML_MT
#define REF_TLS thread_local
#else
#define REF_TLS
#endif
extern REF_TLS u64 P;               // current modulus (mirrors zz_p::modulus()); one per thread in the concurrency check
inline u64 add(u64 a,u64 b){ u64 c=a+b; return (c<a||c>=P)?c-P:c; }
inline u64 sub(u64 a,u64 b){ return a>=b?a-b:a+P-b; }
inline u64 neg(u64 a){ return a?P-a:0; }
inline u64 mul(u64 a,u64 b){ return (u64)((u128)a*b%P); }
inline int chunk(){ return P>>60?1:128; }   // products that can be accumulated before reducing
inline u64 pw(u64 a,u64 e){ u64 r=1%P; while(e){ if(e&1) r=mul(r,a); a=mul(a,a); e>>=1;} return r; }
inline u64 inv(u64 a){ return pw(a,P-2); }   // P prime
typedef std::vector<u64> Poly;
typedef std::vector<u64> Vec;
inline void norm(Poly&a){ while(!a.empty()&&a.back()==0) a.pop_back(); }
inline long deg(const Poly&a){ long d=(long)a.size()-1; while(d>=0&&a[d]==0) --d; return d; }
inline u64 coef(const Poly&a,long i){ return (i>=0&&i<(long)a.size())?a[i]:0; }
inline Poly padd(const Poly&a,const Poly&b){ Poly c(std::max(a.size(),b.size()),0); for(size_t i=0;i<c.size();i++) c[i]=add(coef(a,i),coef(b,i)); norm(c); return c; }
inline Poly psub(const Poly&a,const Poly&b){ Poly c(std::max(a.size(),b.size()),0); for(size_t i=0;i<c.size();i++) c[i]=sub(coef(a,i),coef(b,i)); norm(c); return c; }
inline Poly pneg(const Poly&a){ Poly c=a; for(auto&x:c) x=neg(x); norm(c); return c; }
inline Poly pscale(const Poly&a,u64 s){ Poly c=a; for(auto&x:c) x=mul(x,s); norm(c); return c; }
inline Poly pmul(const Poly&a,const Poly&b){
  long n=deg(a)+1,m=deg(b)+1; if(n==0||m==0) return Poly();
  Poly c(n+m-1);
  for(long k=0;k<n+m-1;k++){ u128 s=0; long lo=std::max(0L,k-m+1),hi=std::min(n-1,k); int cnt=0,mx=chunk();
    for(long i=lo;i<=hi;i++){ s+=(u128)a[i]*b[k-i]; if(++cnt>=mx){ s%=P; cnt=0; } }
    c[k]=(u64)(s%P); }
  norm(c); return c; }
inline Poly pshl(const Poly&a,long n){ if(n<0){ long k=-n; if(k>=(long)a.size()) return Poly(); Poly c(a.begin()+k,a.end()); norm(c); return c; }
  if(deg(a)<0) return Poly(); Poly c(n,0); c.insert(c.end(),a.begin(),a.end()); norm(c); return c; }
inline Poly ptrunc(const Poly&a,long n){ if(n<=0) return Poly(); Poly c(a.begin(),a.begin()+std::min((long)a.size(),n)); norm(c); return c; }
inline Poly pslice(const Poly&a,long lo,long n){ Poly c; for(long i=0;i<n;i++) c.push_back(coef(a,lo+i)); norm(c); return c; }
inline u64 peval(const Poly&a,u64 x){ u64 r=0; for(long i=(long)a.size()-1;i>=0;i--) r=add(mul(r,x),a[i]); return r; }
inline Poly prev(const Poly&a,long hi){ Poly c; for(long i=0;i<=hi;i++) c.push_back(coef(a,hi-i)); norm(c); return c; }
inline void pdivrem(Poly&q,Poly&r,const Poly&a,const Poly&b){ // b != 0
  r=a; norm(r); Poly bb=b; norm(bb); long db=deg(bb); u64 ib=inv(bb[db]); q.clear(); long dr=deg(r);
  if(dr<db) return; q.assign(dr-db+1,0);
  for(long k=dr-db;k>=0;k--){ u64 c=mul(r[k+db],ib); q[k]=c; if(c) for(long i=0;i<=db;i++) r[k+i]=sub(r[k+i],mul(c,bb[i])); }
  norm(q); norm(r); }
inline Poly prem(const Poly&a,const Poly&b){ Poly q,r; pdivrem(q,r,a,b); return r; }
inline Poly pmonic(const Poly&a){ Poly c=a; norm(c); if(c.empty()) return c; return pscale(c,inv(c.back())); }
inline Poly pgcd(Poly a,Poly b){ norm(a);norm(b); while(!b.empty()){ Poly r=prem(a,b); a=b; b=r; } return pmonic(a); }
inline bool peq(const Poly&a,const Poly&b){ long d=deg(a); if(d!=deg(b)) return false; for(long i=0;i<=d;i++) if(a[i]!=b[i]) return false; return true; }
inline Poly pinvser(const Poly&a,long n){ // a[0]!=0
  Poly c(n,0); u64 i0=inv(a[0]); for(long k=0;k<n;k++){ u128 s=0; int mx=chunk(); for(long i=1;i<=k;i++){ s+=(u128)coef(a,i)*c[k-i]; if(mx==1||(i&127)==0) s%=P; } u64 t=(u64)(s%P); c[k]=mul(sub(k==0?1%P:0,t),i0); }
  norm(c); return c; }
inline std::string pstr(const Poly&a){ std::ostringstream o; o<<"["; for(size_t i=0;i<a.size();i++){ if(i) o<<" "; if(i>=24){ o<<"...("<<a.size()<<")"; break;} o<<a[i]; } o<<"]"; return o.str(); }

struct CMat { long r=0,c=0; std::vector<u64> a; CMat(){} CMat(long r_,long c_):r(r_),c(c_),a((size_t)(r_*c_),0){}
  u64&at(long i,long j){ return a[i*c+j]; } u64 at(long i,long j)const{ return a[i*c+j]; }
  bool operator==(const CMat&o)const{ return r==o.r&&c==o.c&&a==o.a; } bool operator!=(const CMat&o)const{ return !(*this==o);} };
inline CMat cmul(const CMat&A,const CMat&B){ CMat C(A.r,B.c); int mx=chunk(); for(long i=0;i<A.r;i++) for(long j=0;j<B.c;j++){ u128 s=0; for(long k=0;k<A.c;k++){ s+=(u128)A.at(i,k)*B.at(k,j); if(mx==1||(k&127)==127) s%=P; } C.at(i,j)=(u64)(s%P);} return C; }
inline CMat cadd(const CMat&A,const CMat&B){ CMat C=A; for(size_t i=0;i<C.a.size();i++) C.a[i]=add(C.a[i],B.a[i]); return C; }
inline CMat csub(const CMat&A,const CMat&B){ CMat C=A; for(size_t i=0;i<C.a.size();i++) C.a[i]=sub(C.a[i],B.a[i]); return C; }
inline CMat ctr(const CMat&A){ CMat C(A.c,A.r); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) C.at(j,i)=A.at(i,j); return C; }
inline CMat cident(long n){ CMat C(n,n); for(long i=0;i<n;i++) C.at(i,i)=1%P; return C; }
inline Vec cmulv(const CMat&A,const Vec&v){ Vec w(A.r,0); int mx=chunk(); for(long i=0;i<A.r;i++){ u128 s=0; for(long k=0;k<A.c;k++){ s+=(u128)A.at(i,k)*v[k]; if(mx==1||(k&127)==127) s%=P;} w[i]=(u64)(s%P);} return w; }
inline Vec cvmul(const Vec&v,const CMat&A){ return cmulv(ctr(A),v); }
// row echelon in place; returns rank; det if square
inline long celim(CMat A,u64*det=nullptr,std::vector<long>*piv=nullptr,CMat*out=nullptr,bool reduced=false){
  long rk=0; u64 d=1%P; for(long j=0;j<A.c&&rk<A.r;j++){ long p=-1; for(long i=rk;i<A.r;i++) if(A.at(i,j)){p=i;break;}
    if(p<0){ continue; } if(p!=rk){ for(long k=0;k<A.c;k++) std::swap(A.at(p,k),A.at(rk,k)); d=neg(d);} u64 iv=inv(A.at(rk,j)); d=mul(d,A.at(rk,j));
    for(long k=0;k<A.c;k++) A.at(rk,k)=mul(A.at(rk,k),iv);
    for(long i=reduced?0:rk+1;i<A.r;i++) if(i!=rk&&A.at(i,j)){ u64 f=A.at(i,j); for(long k=j;k<A.c;k++) A.at(i,k)=sub(A.at(i,k),mul(f,A.at(rk,k))); }
    if(piv) piv->push_back(j); rk++; }
  if(det) *det=(A.r==A.c&&rk==A.r)?d:0; if(out) *out=A; return rk; }
inline long crank(const CMat&A){ return celim(A); }
inline u64 cdet(const CMat&A){ if(A.r==0) return 1%P; u64 d; celim(A,&d); return d; }
inline bool cinv(CMat&I,const CMat&A){ long n=A.r; CMat B(n,2*n); for(long i=0;i<n;i++){ for(long j=0;j<n;j++) B.at(i,j)=A.at(i,j); B.at(i,n+i)=1%P; }
  CMat E; std::vector<long> pv; celim(B,nullptr,&pv,&E,true); for(long i=0;i<n;i++) if(i>=(long)pv.size()||pv[i]!=i) return false; I=CMat(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++) I.at(i,j)=E.at(i,n+j); return true; }
inline std::string cstr(const CMat&A){ std::ostringstream o; o<<A.r<<"x"<<A.c<<"["; for(size_t i=0;i<A.a.size()&&i<40;i++){ if(i) o<<(i%A.c==0?"; ":" "); o<<A.a[i]; } if(A.a.size()>40) o<<"..."; o<<"]"; return o.str(); }

struct PMat { long r=0,c=0; std::vector<Poly> a; PMat(){} PMat(long r_,long c_):r(r_),c(c_),a((size_t)(r_*c_)){}
  Poly&at(long i,long j){ return a[i*c+j]; } const Poly&at(long i,long j)const{ return a[i*c+j]; } };
inline bool meq(const PMat&A,const PMat&B){ if(A.r!=B.r||A.c!=B.c) return false; for(size_t i=0;i<A.a.size();i++) if(!peq(A.a[i],B.a[i])) return false; return true; }
inline long mdeg(const PMat&A){ long d=-1; for(auto&p:A.a) d=std::max(d,deg(p)); return d; }
inline PMat mmul(const PMat&A,const PMat&B){ PMat C(A.r,B.c); for(long i=0;i<A.r;i++) for(long j=0;j<B.c;j++){ Poly s; for(long k=0;k<A.c;k++){ Poly t=pmul(A.at(i,k),B.at(k,j)); if(t.size()>s.size()) s.resize(t.size(),0); for(size_t u=0;u<t.size();u++) s[u]=add(s[u],t[u]); } norm(s); C.at(i,j)=s; } return C; }
template<class F> inline PMat mmap(const PMat&A,F f){ PMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++){ C.a[i]=f(A.a[i]); norm(C.a[i]); } return C; }
inline PMat madd(const PMat&A,const PMat&B){ PMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++) C.a[i]=padd(A.a[i],B.a[i]); return C; }
inline PMat msub(const PMat&A,const PMat&B){ PMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++) C.a[i]=psub(A.a[i],B.a[i]); return C; }
inline PMat mtr(const PMat&A){ PMat C(A.c,A.r); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) C.at(j,i)=A.at(i,j); return C; }
inline PMat mident(long n){ PMat C(n,n); for(long i=0;i<n;i++) C.at(i,i)=Poly{1%P}; return C; }
inline CMat meval(const PMat&A,u64 x){ CMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++) C.a[i]=peval(A.a[i],x); return C; }
inline CMat mcoef(const PMat&A,long k){ CMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++) C.a[i]=coef(A.a[i],k); return C; }
inline PMat mtrunc(const PMat&A,long n){ return mmap(A,[&](const Poly&p){return ptrunc(p,n);}); }
inline PMat mslice(const PMat&A,long lo,long n){ return mmap(A,[&](const Poly&p){return pslice(p,lo,n);}); }
inline PMat mconst(const CMat&A){ PMat C(A.r,A.c); for(size_t i=0;i<A.a.size();i++){ C.a[i]=Poly{A.a[i]}; norm(C.a[i]); } return C; }
inline PMat msub_block(const PMat&A,long i0,long j0,long r,long c){ PMat C(r,c); for(long i=0;i<r;i++) for(long j=0;j<c;j++) C.at(i,j)=A.at(i0+i,j0+j); return C; }
inline std::string mstr(const PMat&A){ std::ostringstream o; o<<A.r<<"x"<<A.c<<"{"; for(size_t i=0;i<A.a.size()&&i<16;i++){ if(i) o<<(i%A.c==0?" ; ":" "); o<<pstr(A.a[i]); } if(A.a.size()>16) o<<"..."; o<<"}"; return o.str(); }
inline Poly pinterp(const Vec&x,const Vec&y){ // Newton, distinct x
  long n=x.size(); Vec d=y; for(long j=1;j<n;j++) for(long i=n-1;i>=j;i--) d[i]=mul(sub(d[i],d[i-1]),inv(sub(x[i],x[i-j])));
  Poly r; for(long i=n-1;i>=0;i--){ Poly s(r.size()+1,0); for(size_t k=0;k<r.size();k++){ s[k+1]=add(s[k+1],r[k]); s[k]=sub(s[k],mul(r[k],x[i])); } if(s.empty()) s.push_back(0); s[0]=add(s[0],d[i]); r=s; } norm(r); return r; }
// exact determinant: fraction free (Bareiss) elimination over F_p[x]; small sizes
inline Poly pexact(const Poly&a,const Poly&b){ Poly q,r; pdivrem(q,r,a,b); return q; }
inline Poly mdet(PMat A){ long n=A.r; if(n==0) return Poly{1%P}; bool ng=false; Poly prevp{1%P};
  for(long k=0;k<n-1;k++){ long p=-1; for(long i=k;i<n;i++) if(deg(A.at(i,k))>=0&&(p<0||deg(A.at(i,k))<deg(A.at(p,k)))) p=i; if(p<0) return Poly();
    if(p!=k){ for(long j=0;j<n;j++) std::swap(A.at(p,j),A.at(k,j)); ng=!ng; }
    for(long i=k+1;i<n;i++) for(long j=k+1;j<n;j++) A.at(i,j)=pexact(psub(pmul(A.at(i,j),A.at(k,k)),pmul(A.at(i,k),A.at(k,j))),prevp);
    prevp=A.at(k,k); }
  Poly d=A.at(n-1,n-1); norm(d); return ng?pneg(d):d; }
// rank over F_p(x): fraction free elimination
inline long mrank(PMat A){ long rk=0; Poly prevp{1%P}; for(long j=0;j<A.c&&rk<A.r;j++){ long p=-1; for(long i=rk;i<A.r;i++) if(deg(A.at(i,j))>=0&&(p<0||deg(A.at(i,j))<deg(A.at(p,j)))) p=i; if(p<0) continue;
    for(long k=0;k<A.c;k++) std::swap(A.at(p,k),A.at(rk,k));
    for(long i=rk+1;i<A.r;i++){ for(long k=j+1;k<A.c;k++) A.at(i,k)=pexact(psub(pmul(A.at(i,k),A.at(rk,j)),pmul(A.at(i,j),A.at(rk,k))),prevp); A.at(i,j).clear(); }
    prevp=A.at(rk,j); rk++; } return rk; }
}
