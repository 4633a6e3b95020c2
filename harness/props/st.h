// shared checks for structured matrices over F_p
#pragma once
#include "h.h"
#include "structured_lzz_p.h"
using namespace NTL; using namespace PML; using ref::CMat; using ref::Poly;
inline std::string diffat(const CMat&A,const CMat&B){ if(A.r!=B.r||A.c!=B.c) return " shape "+std::to_string(A.r)+"x"+std::to_string(A.c)+" instead of "+std::to_string(B.r)+"x"+std::to_string(B.c); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) if(A.at(i,j)!=B.at(i,j)) return " at entry ("+std::to_string(i)+","+std::to_string(j)+")"; return ""; }
// large shapes (sub `long`): vector products only
inline thread_local bool LONG=false; struct LongMode{ LongMode(){ LONG=true; } ~LongMode(){ LONG=false; } };
inline long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ std::vector<long> v; for(long b=1;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }
inline void ck_eq(const CMat&got,const CMat&want,const std::string&what){ CHECK(got==want,what+" wrong"+diffat(got,want)); }
inline void ck_eq(const ref::Vec&got,const ref::Vec&want,const std::string&what){ CHECK(got.size()==want.size(),what+": wrong length "+std::to_string(got.size())+" instead of "+std::to_string(want.size())); for(size_t i=0;i<got.size();i++) CHECK(got[i]==want[i],what+": entry "+std::to_string(i)+" wrong"); }
inline Mat<zz_p> dirty(Gen&g,long r,long c){ Mat<zz_p> D; D.SetDims(r,c); Rng q(g.seed32()); for(long i=0;i<r;i++) for(long j=0;j<c;j++) D[i][j]=Z(q()%ref::P); return D; }
template<class M> void st_dense(Gen&g,const M&m,const CMat&D){ CHECK(m.NumRows()==D.r&&m.NumCols()==D.c,"wrong dimensions announced"); Mat<zz_p> X; u64 k=g.draw(3); if(k==1) X=dirty(g,D.r,D.c); else if(k==2) X=dirty(g,1+(long)g.draw(4),1+(long)g.draw(4)); m.to_dense(X); ck_eq(get(X),D,"to_dense"); if(k==0){ const structured_lzz_p&b=m; ck_eq(get(b.to_dense()),D,"to_dense (returned)"); } }
template<class M> void st_mulr(Gen&g,const M&m,const CMat&D){ ref::Vec v=gen_list(g,D.c); Vec<zz_p> V=putv(v),W; if(g.coin(1,3)){ m.mul_right(V,V); W=V; } else { u64 o=g.draw(4); const structured_lzz_p&b=m; if(o==1) W=putv(gen_list(g,D.r)); if(o==2) W=b.mul_right(V); else m.mul_right(W,V); CHECK(get(V)==v,"mul_right changed its input"); } ck_eq(get(W),ref::cmulv(D,v),"mul_right(vector)"); }
template<class M> void st_mull(Gen&g,const M&m,const CMat&D){ ref::Vec v=gen_list(g,D.r); Vec<zz_p> V=putv(v),W; if(g.coin(1,3)){ m.mul_left(V,V); W=V; } else { u64 o=g.draw(4); const structured_lzz_p&b=m; if(o==1) W=putv(gen_list(g,D.c)); if(o==2) W=b.mul_left(V); else m.mul_left(W,V); CHECK(get(V)==v,"mul_left changed its input"); } ck_eq(get(W),ref::cvmul(v,D),"mul_left(vector)"); }
template<class M> void st_mulrm(Gen&g,const M&m,const CMat&D){ long q=g.size(1,g.coin(1,6)?40:6); CMat A=gen_cmat(g,D.c,q); Mat<zz_p> V=put(A),W; if(g.coin(1,3)){ m.mul_right(V,V); W=V; } else { u64 o=g.draw(4); const structured_lzz_p&b=m; if(o==1) W=dirty(g,D.r,q); if(o==2) W=b.mul_right(V); else m.mul_right(W,V); CHECK(get(V)==A,"mul_right changed its input"); } ck_eq(get(W),ref::cmul(D,A),"mul_right(matrix)"); }
template<class M> void st_mullm(Gen&g,const M&m,const CMat&D){ long q=g.size(1,g.coin(1,6)?40:6); CMat A=gen_cmat(g,q,D.r); Mat<zz_p> V=put(A),W; if(g.coin(1,3)){ m.mul_left(V,V); W=V; } else { u64 o=g.draw(4); const structured_lzz_p&b=m; if(o==1) W=dirty(g,q,D.c); if(o==2) W=b.mul_left(V); else m.mul_left(W,V); CHECK(get(V)==A,"mul_left changed its input"); } ck_eq(get(W),ref::cmul(A,D),"mul_left(matrix)"); }
template<class M> void st_all(Gen&g,Case&c,const M&m,const CMat&D,int ops=31){ bool nz=false; for(auto x:D.a) if(x) nz=true; NONTRIVIAL(c,nz&&D.r*D.c>=2); if(g.coin(1,6)){ M t; CHECK(t.NumRows()==0&&t.NumCols()==0,"a default-constructed matrix is not empty"); c.note("op","assign"); { M u(m); t=u; } st_dense(g,t,D); if(g.coin(1,2)) st_mulr(g,t,D); else st_mull(g,t,D); } if(LONG){ ops=6; } long k=1+(long)g.draw(3); for(long i=0;i<k;i++){ long o=LONG?1+(long)g.draw(2):(long)g.draw(5); if(!(ops>>o&1)) continue; static const char*nm[]={"dense","mulr","mull","mulrm","mullm"}; c.note("op",nm[o]); switch(o){ case 0: st_dense(g,m,D); break; case 1: st_mulr(g,m,D); break; case 2: st_mull(g,m,D); break; case 3: st_mulrm(g,m,D); break; default: st_mullm(g,m,D); } } }
// shapes with a bias towards the points where the implementation may switch algorithm
inline void gen_shape(Gen&g,Case&c,long&r,long&k){ if(LONG){ r=llen(g,230,1200); k=g.coin(1,4)?r:g.coin(1,3)?1+(long)g.draw(40):llen(g,230,1200); if(g.coin(1,2)) std::swap(r,k); c.note("rows",r); c.note("cols",k); return; } long mx=g.coin(1,4)?220:g.coin(1,3)?60:9; r=g.size(1,mx); switch(g.draw(4)){ case 0: k=r; break; case 1: k=g.size(1,9); break; default: k=g.size(1,mx); } if(g.coin(1,2)&&k!=r&&g.coin(1,2)) std::swap(r,k); c.note("rows",r); c.note("cols",k); }
inline CMat refZ(long n,u64 lam){ CMat Z0(n,n); for(long i=1;i<n;i++) Z0.at(i,i-1)=1%ref::P; if(n>0) Z0.at(0,n-1)=ref::add(Z0.at(0,n-1),lam%ref::P); return Z0; }
