// shared checks for polynomial matrices
#pragma once
#include "h.h"
#ifndef PML_FLINT
#include "mat_lzz_pX_extra.h"
using namespace NTL; using namespace PML;
#endif
using ref::Poly; using ref::PMat; using ref::CMat;
typedef std::vector<Poly> PV;
inline std::string at2(long i,long j){ return " at entry ("+std::to_string(i)+","+std::to_string(j)+")"; }
inline void ckm(const PMat&got,const PMat&want,const std::string&w){ CHECK(got.r==want.r&&got.c==want.c,w+": shape "+std::to_string(got.r)+"x"+std::to_string(got.c)+" instead of "+std::to_string(want.r)+"x"+std::to_string(want.c)); for(long i=0;i<got.r;i++) for(long j=0;j<got.c;j++) CHECK(ref::peq(got.at(i,j),want.at(i,j)),w+" wrong"+at2(i,j)); }
#ifndef PML_FLINT
inline void ckm(const Mat<zz_pX>&got,const PMat&want,const std::string&w){ ckm(get(got),want,w); }
#endif
inline void ckc(const CMat&got,const CMat&want,const std::string&w){ CHECK(got.r==want.r&&got.c==want.c,w+": wrong shape"); for(long i=0;i<got.r;i++) for(long j=0;j<got.c;j++) CHECK(got.at(i,j)==want.at(i,j),w+" wrong"+at2(i,j)); }
inline void ckv(const PV&got,const PV&want,const std::string&w){ CHECK(got.size()==want.size(),w+": wrong length "+std::to_string(got.size())); for(size_t i=0;i<got.size();i++) CHECK(ref::peq(got[i],want[i]),w+" wrong at entry "+std::to_string(i)); }
inline PV gen_pv(Gen&g,long n,long d){ PMat A=gen_pmat(g,n,1,d); return A.a; }
#ifndef PML_FLINT
inline Mat<zz_pX> dirtyp(Gen&g,long r,long c){ return put(gen_pmat_dense(g,r,c,3)); }
// a recycled output: empty, right shape dirty, wrong shape dirty
inline Mat<zz_pX> outm(Gen&g,long r,long c){ switch(g.draw(4)){ case 2: return dirtyp(g,r,c); case 3: return dirtyp(g,1+(long)g.draw(4),1+(long)g.draw(4)); default: return Mat<zz_pX>(); } }
inline Mat<zz_p> outc(Gen&g,long r,long c){ if(g.coin(1,3)){ CMat D(r,c); Rng q(g.seed32()); for(auto&x:D.a) x=q()%ref::P; return put(D);} return Mat<zz_p>(); }
#endif
// randomised exact check of C == A*B for big sizes (projection by random vectors on both sides, all coefficients): error probability <= 2/p per call, repeated for small p
inline PMat mproj(const PMat&A,const ref::Vec&u){ PMat R(1,A.c); for(long j=0;j<A.c;j++){ Poly s; for(long i=0;i<A.r;i++) s=ref::padd(s,ref::pscale(A.at(i,j),u[i])); R.at(0,j)=s; } return R; }
inline void ck_prod(Gen&g,const PMat&A,const PMat&B,const PMat&C,const std::string&w){ CHECK(C.r==A.r&&C.c==B.c,w+": shape "+std::to_string(C.r)+"x"+std::to_string(C.c)+" instead of "+std::to_string(A.r)+"x"+std::to_string(B.c));
  long da=ref::mdeg(A)+1,db=ref::mdeg(B)+1; double cost=(double)A.r*A.c*B.c*da*db; if(cost<3e5){ ckm(C,ref::mmul(A,B),w); return; }
  Rng q(g.seed32()); int reps=ref::P>(1ULL<<30)?2:ref::P>1000?6:24; for(int t=0;t<reps;t++){ ref::Vec u(A.r),v(B.c); for(auto&x:u) x=q()%ref::P; for(auto&x:v) x=q()%ref::P; PMat uA=mproj(A,u),Bv=ref::mtr(mproj(ref::mtr(B),v)); PMat l=ref::mmul(uA,Bv),r=ref::mmul(mproj(C,u),ref::mconst([&]{ CMat k(B.c,1); k.a=v; return k; }())); CHECK(ref::peq(l.at(0,0),r.at(0,0)),w+" wrong (random projection)"); } }
#ifndef PML_FLINT
// makes one top coefficient of the integer product of A and B (entries lifted to [0,p)) a multiple of an FFT prime of NTL: its images modulo the
// primes of a multi-modular product then have different degrees.  Needs p > 2^31, at least two inner columns; da, db: the degrees to use
inline bool crt_degree_drop(Gen&g,PMat&A,PMat&B,long da,long db){ if(ref::P<(1ULL<<31)||A.c<2||A.r<1||B.c<1||da<0||db<0) return false; u64 q; { zz_pPush push; zz_p::FFTInit((long)g.draw(3)); q=(u64)zz_p::modulus(); }
  u64 lo=q/ref::P+2,b1=lo+(g.draw(1ULL<<20)*((ref::P-lo)>>21)); u64 a1=q/b1,a2=q-a1*b1; if(a1>=ref::P||a2>=ref::P||b1>=ref::P) return false; long i=(long)g.draw(A.r),j=(long)g.draw(B.c),k1=(long)g.draw(A.c),k2=(k1+1+(long)g.draw(A.c-1))%A.c;
  auto set=[](Poly&p,long d,u64 v){ p.resize(d+1,0); p[d]=v; ref::norm(p); }; for(long k=0;k<A.c;k++) set(A.at(i,k),da,k==k1?a1:k==k2?a2:0); for(long k=0;k<A.c;k++) set(B.at(k,j),db,k==k1?b1:k==k2?1:0); return true; }

// a prime p such that n*len*(p-1)^2 is close to a bound at which multi-modular products need one more FFT prime (one prime, two primes, half of that)
inline Field crt_edge_field(Gen&g,long n,long len){ u64 q0,q1; { zz_pPush push; zz_p::FFTInit(0); q0=(u64)zz_p::modulus(); zz_p::FFTInit(1); q1=(u64)zz_p::modulus(); } long double T; switch(g.draw(4)){ case 0: T=(long double)q0; break; case 1: T=(long double)q0/2; break; case 2: T=(long double)q0*q1; break; default: T=(long double)q0*q1/2; } long double al; switch(g.draw(4)){ case 0: al=1.0L+(long double)g.draw(1000)/1000; break; case 1: al=1.0L-(long double)g.draw(500)/1000; break; case 2: al=1.0L+(long double)(1+g.draw(8))/65536; break; default: al=1.0L-(long double)(1+g.draw(8))/65536; }
  u64 x=(u64)sqrtl(T*al/((long double)n*len))+1; Field f; f.kind=F_BIG; f.idx=0; f.p=x>2?(g.coin(1,2)?nextprime(x):prevprime(x)):2; if(f.p>=(1ULL<<60)) f.p=prevprime((1ULL<<60)-1); set_field(f); return f; }
#endif
inline PMat full_pmat(Gen&g,long r,long c,long len){ PMat A(r,c); Rng q(g.seed32()); u64 k=g.coin(1,3)?3:1; for(auto&p:A.a){ p.resize(len); for(auto&x:p) x=ref::P-1-q.below(std::min<u64>(k,ref::P)); ref::norm(p); } return A; }
