// reference facts about approximant and interpolant bases
#pragma once
#include <iostream>
#include "forms.h"
#ifndef PML_FLINT
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_interpolant.h"
#endif
// codimension of the module of approximants: dimension of the K-span of x^i * rows of F modulo the column orders
inline long app_codim_rank(const PMat&F,const VL&o){ long D=0,S=0; for(long x:o){ D=std::max(D,x); S+=x; } CMat M(F.r*D,S); for(long k=0;k<F.r;k++) for(long i=0;i<D;i++){ long off=0; for(long j=0;j<F.c;j++){ for(long t=i;t<o[j];t++) M.at(k*D+i,off+t)=ref::coef(F.at(k,j),t-i); off+=o[j]; } } return ref::crank(M); }
// same number by elimination on residuals, one coefficient at a time (for larger sizes)
inline long app_codim_iter(const PMat&F,const VL&o){ long m=F.r,n=F.c,cnt=0; std::vector<std::vector<ref::Vec>> R(m,std::vector<ref::Vec>(n)); for(long i=0;i<m;i++) for(long j=0;j<n;j++){ R[i][j].assign(o[j],0); for(long t=0;t<o[j];t++) R[i][j][t]=ref::coef(F.at(i,j),t); } VL s(m,0);
  for(long j=0;j<n;j++) for(long t=0;t<o[j];t++){ long p=-1; for(long i=0;i<m;i++) if(R[i][j][t]&&(p<0||s[i]<s[p])) p=i; if(p<0) continue; u64 iv=ref::inv(R[p][j][t]); for(long i=0;i<m;i++) if(i!=p&&R[i][j][t]){ u64 c=ref::neg(ref::mul(R[i][j][t],iv)); for(long k=j;k<n;k++) for(long e=(k==j?t:0);e<o[k];e++) R[i][k][e]=ref::add(R[i][k][e],ref::mul(c,R[p][k][e])); } for(long k=j;k<n;k++){ R[p][k].insert(R[p][k].begin(),0); R[p][k].pop_back(); } s[p]++; cnt++; } return cnt; }
inline long app_codim(const PMat&F,const VL&o){ long D=0,S=0; for(long x:o){ D=std::max(D,x); S+=x; } double cost=(double)F.r*D*S*S; return cost<3e5?app_codim_rank(F,o):app_codim_iter(F,o); }
inline PMat colmod(const PMat&A,const VL&o){ PMat B=A; for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) B.at(i,j)=ref::ptrunc(A.at(i,j),o[j]); return B; }
inline long vsum(const VL&v){ long t=0; for(long x:v) t+=x; return t; }
// P is a basis of the approximants of (F,o) in the given form for shift s, rdeg its shifted row degree
inline void ck_app(const PMat&P,const PMat&F,const VL&o,const VL&s,int form,const VL&rdeg,const std::string&w,long codim=-1){ long m=F.r; CHECK(P.r==m&&P.c==m,w+": basis of shape "+std::to_string(P.r)+"x"+std::to_string(P.c));
  long D=0; for(long x:o) D=std::max(D,x); PMat Ft=colmod(F,o); PMat R=colmod(ref::mmul(ref::mtrunc(P,D),Ft),o); for(long i=0;i<R.r;i++) for(long j=0;j<R.c;j++) CHECK(ref::deg(R.at(i,j))<0,w+": row "+std::to_string(i)+" is not an approximant, column "+std::to_string(j)+" has valuation below "+std::to_string(o[j]));
  CHECK(f_form(form,P,s),w+": not "+fname(form)+" for shift "+vstr(s)); VL d=rrdeg(P,s); CHECK(d==rdeg,w+": degrees returned "+vstr(rdeg)+" instead of "+vstr(d)); if(codim<0) codim=app_codim(F,o); CHECK(vsum(d)-vsum(s)==codim,w+": rows do not generate all approximants (determinant of degree "+std::to_string(vsum(d)-vsum(s))+" instead of "+std::to_string(codim)+")"); }
// series matrix: what gen_pmat gives, multiplied by powers of x or with duplicated/zero rows
inline PMat gen_series(Gen&g,long m,long n,long d){ PMat F=gen_pmat(g,m,n,d); Rng q(g.seed32()); switch(g.draw(8)){ case 5: for(long i=0;i<m;i++){ long v=(long)q.below(d+1); for(long j=0;j<n;j++) F.at(i,j)=ref::ptrunc(ref::pshl(F.at(i,j),v),d); } break; case 6: for(long i=1;i<m;i++) if(q.below(2)){ long k=(long)q.below(i); u64 cst=q()%ref::P; long v=(long)q.below(3); for(long j=0;j<n;j++) F.at(i,j)=ref::pshl(ref::pscale(F.at(k,j),cst),v); } break; case 7: for(long j=0;j<n;j++) if(q.below(2)){ long v=(long)q.below(d+1); for(long i=0;i<m;i++) F.at(i,j)=ref::ptrunc(ref::pshl(F.at(i,j),v),d); } break; default: break; } return F; }
// leaves standard output alone while a chatty function runs
#ifdef PML_MT
struct Quiet { Quiet(){} };   // standard output is already discarded, and its buffer is shared by all threads
#else
struct Quiet { std::ostringstream o; std::streambuf*b; Quiet(){ b=std::cout.rdbuf(o.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); } };
#endif
// distinct points: consecutive, random, containing zero; a shuffle of the field when it is small
inline ref::Vec gen_pts(Gen&g,long n){ ref::Vec v; std::map<u64,int> seen; Rng q(g.seed32()); u64 st=g.draw(4); if(ref::P<=(u64)4*n){ for(u64 x=0;x<ref::P;x++) v.push_back(x); for(size_t i=0;i<v.size();i++) std::swap(v[i],v[i+q.below(v.size()-i)]); v.resize(n); return v; } if(st==0){ for(long i=0;i<n;i++) v.push_back(i); return v; } if(st==1){ seen[0]=1; v.push_back(0); } while((long)v.size()<n){ u64 x=q()%ref::P; if(!seen[x]++) v.push_back(x); } return v; }
inline void ck_int(const PMat&P,const std::vector<CMat>&E,const ref::Vec&pts,const VL&s,int form,const VL&rdeg,const std::string&w){ long m=s.size(); CHECK(P.r==m&&P.c==m,w+": basis of shape "+std::to_string(P.r)+"x"+std::to_string(P.c)); long cod=0; for(size_t k=0;k<pts.size();k++){ cod+=ref::crank(E[k]); CMat R=ref::cmul(ref::meval(P,pts[k]),E[k]); for(u64 x:R.a) CHECK(x==0,w+": rows do not vanish at point number "+std::to_string(k)); } CHECK(f_form(form,P,s),w+": not "+fname(form)+" for shift "+vstr(s)); VL d=rrdeg(P,s); CHECK(d==rdeg,w+": degrees returned "+vstr(rdeg)+" instead of "+vstr(d)); CHECK(vsum(d)-vsum(s)==cod,w+": rows do not generate all interpolants (determinant of degree "+std::to_string(vsum(d)-vsum(s))+" instead of "+std::to_string(cod)+")"); }
inline u64 gen_ratio(Gen&g,long ord){ Rng q(g.seed32()); for(int t=0;t<400;t++){ u64 r=1+q()%(ref::P-1),x=1; bool ok=true; for(long i=1;i<ord&&ok;i++){ x=ref::mul(x,r); if(x==1%ref::P) ok=false; } if(ok) return r; } return 0; }
