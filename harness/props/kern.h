// reference facts about left kernel bases
#pragma once
#include "bases.h"
// gcd of the maximal minors of K is 1: every vector of the saturation is generated
inline bool primitive(Gen&g,const PMat&K){ long k=K.r,m=K.c; if(k==0) return true; Poly G; Rng q(g.seed32()); if(k<m&&ref::P>10000) for(int t=0;t<3;t++){ CMat R(m,k); for(auto&x:R.a) x=q()%ref::P; Poly d=ref::mdet(ref::mmul(K,ref::mconst(R))); G=ref::pgcd(G,d); if(ref::deg(G)==0) return true; }
  std::vector<int> sel(m,0); std::fill(sel.begin(),sel.begin()+k,1); do { PMat S(k,k); long c=0; for(long j=0;j<m;j++) if(sel[j]){ for(long i=0;i<k;i++) S.at(i,c)=K.at(i,j); c++; } G=ref::pgcd(G,ref::mdet(S)); if(ref::deg(G)==0) return true; } while(std::prev_permutation(sel.begin(),sel.end())); return false; }
inline void ck_ker(Gen&g,const PMat&K,const PMat&F,const VL&s,int form,const std::string&w){ long rk=ref::mrank(F); CHECK(K.r==F.r-rk,w+": "+std::to_string(K.r)+" rows instead of "+std::to_string(F.r-rk)); CHECK(K.c==F.r||K.r==0,w+": width"); if(K.r==0) return; PMat Z=ref::mmul(K,F); for(long i=0;i<Z.r;i++) for(long j=0;j<Z.c;j++) CHECK(ref::deg(Z.at(i,j))<0,w+": row "+std::to_string(i)+" is not in the kernel"); CHECK(f_form(form,K,s),w+": not "+fname(form)+" for shift "+vstr(s)); CHECK(primitive(g,K),w+": rows do not generate the whole kernel"); }
inline PMat gen_F(Gen&g,long m,long n,long d){ Rng q(0); PMat F; switch(g.draw(8)){ case 0: case 1: return gen_pmat_dense(g,m,n,d); case 2: return gen_series(g,m,n,d);
  case 3: { long r=(long)g.draw(std::min(m,n)+1); if(r==0) return PMat(m,n); long d1=1+(long)g.draw(d); return ref::mmul(gen_pmat(g,m,r,d1),gen_pmat(g,r,n,std::max(1L,d-d1+1))); }
  case 4: { long r=1+(long)g.draw(m); PMat A=gen_pmat_dense(g,r,n,d); PMat C=ref::mmul(gen_pmat(g,m,r,1+(long)g.draw(3)),A); q=Rng(g.seed32()); for(long i=0;i<r;i++) for(long j=0;j<n;j++) C.at(i,j)=A.at(i,j); return C; }
  case 5: { F=gen_pmat_dense(g,m,n,1); q=Rng(g.seed32()); for(long i=0;i<m;i++){ long e=(long)q.below(d+1); for(long j=0;j<n;j++){ Poly p; for(long k=0;k<e;k++) p.push_back(q()%ref::P); ref::norm(p); F.at(i,j)=p; } } return F; }
  case 6: { F=PMat(m,n); q=Rng(g.seed32()); for(long j=0;j<n;j++){ long e=(long)q.below(d+1); for(long i=0;i<m;i++){ Poly p; for(long k=0;k<e;k++) p.push_back(q()%ref::P); ref::norm(p); F.at(i,j)=p; } } return F; }
  default: return ref::mmul(gen_pmat(g,m,m,1+(long)g.draw(2)),gen_pmat(g,m,n,std::max(1L,d-1))); } }
