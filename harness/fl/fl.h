// flint-extras mode of the harness: moduli, conversions between reference values and the FLINT stand-in's types
#pragma once
#include "flint_shim.h"
struct FlintThrow { std::string m; };
inline u64& lib_seed_ref(){ static u64 x=0; return x; }
inline void fl_throw_cb(const char*m){ throw Failure{std::string("error raised: ")+m}; }
inline void lib_seed(u64 n){ lib_seed_ref()=n; flint_shim_throw=fl_throw_cb; }
inline void set_field(const Field&f){ ref::P=f.p; }
inline Field gen_field(Gen&g,int mask=F_ALL|F_FULL,u64 minp=0){
  mask&=~F_FFT; std::vector<int> ks; for(int k:{F_SMALL,F_MED,F_BIG,F_FULL,F_USERFFT,F_TINY}) if(mask&k) ks.push_back(k);
  Field f; f.kind=ks[g.draw(ks.size())]; f.idx=0;
  switch(f.kind){
   case F_TINY: { std::vector<u64> L={2,3,5,7,11,13,17,19,23,31,61,97}; L.erase(std::remove_if(L.begin(),L.end(),[&](u64 q){return q<minp;}),L.end()); f.p=L.empty()?nextprime(minp):L[g.draw(L.size())]; break; }
   case F_SMALL: { u64 lo=std::max<u64>(minp,101); f.p=nextprime(lo+g.draw(std::max<u64>(1,(1ULL<<(8+g.draw(9)))))); break; }
   case F_MED: { int b=(int)g.range(18,32); u64 x=(1ULL<<b)+g.draw(1ULL<<(b-1)); f.p=g.coin(1,4)?prevprime((1ULL<<b)-1):nextprime(x); break; }
   case F_BIG: { int b=(int)g.range(33,59); u64 m=g.draw(6); f.p=m==0?prevprime((1ULL<<60)-1):m==1?prevprime((1ULL<<b)-1):nextprime((1ULL<<b)+g.draw(1ULL<<(b-1))); break; }
   case F_FULL: { int b=(int)g.range(60,63); u64 m=g.draw(6); f.p=m==0?prevprime(~0ULL):m==1?prevprime((1ULL<<b)-1):m==2?nextprime((1ULL<<b)+1):nextprime((1ULL<<b)+g.draw(1ULL<<(b-1))); break; }
   default: { auto L=userfft(); L.erase(std::remove_if(L.begin(),L.end(),[&](u64 q){return q<minp;}),L.end()); f.p=L[g.draw(L.size())]; }
  }
  if(f.p<minp) f.p=nextprime(minp);
  set_field(f); return f; }
inline void note_field(Case&c,const Field&f){ std::ostringstream o; o<<"p="<<f.p<<"("<<f.name()<<") "; c.desc+=o.str(); c.sync(); c.tag(std::string("mod:")+f.name()); }
inline std::string s(const ref::Poly&a){ return ref::pstr(a); }
inline nmod_t MOD(u64 n=0){ nmod_t m; nmod_init(&m,n?n:ref::P); return m; }
inline void put(nmod_poly_struct*p,const ref::Poly&a){ long n=ref::deg(a)+1; nmod_poly_fit_length(p,n); for(long i=0;i<n;i++) p->coeffs[i]=a[i]; p->length=n; }
inline ref::Poly get(const nmod_poly_struct*p){ CHECK(p->length>=0&&p->length<=p->alloc,"polynomial with inconsistent length"); CHECK(p->mod.n==ref::P,"modulus of a polynomial changed"); ref::Poly r; for(long i=0;i<p->length;i++){ CHECK(p->coeffs[i]<ref::P,"coefficient not reduced: "+std::to_string(p->coeffs[i])); r.push_back(p->coeffs[i]); } CHECK(r.empty()||r.back()!=0,"polynomial not normalized (leading zero coefficient)"); return r; }
inline ref::CMat get(const nmod_mat_struct*m){ CHECK(m->mod.n==ref::P,"modulus of a matrix changed"); ref::CMat r(m->r,m->c); for(long i=0;i<m->r;i++) for(long j=0;j<m->c;j++){ u64 x=nmod_mat_entry(m,i,j); CHECK(x<ref::P,"entry not reduced: "+std::to_string(x)); r.at(i,j)=x; } return r; }
inline ref::PMat get(const nmod_poly_mat_struct*m){ CHECK(m->modulus==ref::P,"modulus of a polynomial matrix changed"); ref::PMat r(m->r,m->c); for(long i=0;i<m->r;i++) for(long j=0;j<m->c;j++) r.at(i,j)=get(nmod_poly_mat_entry(m,i,j)); return r; }
struct FP { nmod_poly_t p; FP(){ nmod_poly_init(p,ref::P); } explicit FP(const ref::Poly&a){ nmod_poly_init(p,ref::P); put(p,a); } FP(const FP&)=delete; ~FP(){ nmod_poly_clear(p); } operator nmod_poly_struct*(){ return p; } ref::Poly val()const{ return get(p); } };
// constant matrix, possibly a window into a larger one (win) whose other entries must survive
struct FM { nmod_mat_t m,par; bool win=false; ref::CMat out,in; long i0=0,j0=0;
  void mk(Gen*g,const ref::CMat&A){ in=A; if(g&&g->coin(1,4)){ win=true; i0=(long)g->draw(3); j0=(long)g->draw(3); long r=A.r+i0+(long)g->draw(2),c=A.c+j0+(long)g->draw(3); Rng q(g->seed32()); out=ref::CMat(r,c); for(auto&x:out.a) x=q()%ref::P; nmod_mat_init(par,r,c,ref::P); for(long i=0;i<r;i++) for(long j=0;j<c;j++) nmod_mat_entry(par,i,j)=out.at(i,j); nmod_mat_window_init(m,par,i0,j0,i0+A.r,j0+A.c); } else nmod_mat_init(m,A.r,A.c,ref::P); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) nmod_mat_entry(m,i,j)=A.at(i,j); }
  explicit FM(const ref::CMat&A){ mk(nullptr,A); } FM(Gen&g,const ref::CMat&A){ mk(&g,A); } FM(long r,long c){ mk(nullptr,ref::CMat(r,c)); }
  FM(const FM&)=delete; ~FM(){ if(win){ nmod_mat_window_clear(m); nmod_mat_clear(par); } else nmod_mat_clear(m); }
  operator nmod_mat_struct*(){ return m; }
  void margin(const std::string&w)const{ if(!win) return; for(long i=0;i<out.r;i++) for(long j=0;j<out.c;j++) if(i<i0||i>=i0+in.r||j<j0||j>=j0+in.c) CHECK(nmod_mat_entry(par,i,j)==out.at(i,j),w+": entries outside the window were modified"); }
  ref::CMat val()const{ margin("matrix"); return get(m); }
  void kept(const std::string&w)const{ margin(w); CHECK(get(m)==in,w+": input matrix was modified"); } };
struct FPM { nmod_poly_mat_t m,par; bool win=false; ref::PMat out,in; long i0=0,j0=0;
  void mk(Gen*g,const ref::PMat&A){ in=A; if(g&&g->coin(1,4)){ win=true; i0=(long)g->draw(3); j0=(long)g->draw(3); long r=A.r+i0+(long)g->draw(2),c=A.c+j0+(long)g->draw(3); Rng q(g->seed32()); out=ref::PMat(r,c); for(auto&x:out.a){ x.resize(q.below(4)); for(auto&y:x) y=q()%ref::P; ref::norm(x); } nmod_poly_mat_init(par,r,c,ref::P); for(long i=0;i<r;i++) for(long j=0;j<c;j++) put(nmod_poly_mat_entry(par,i,j),out.at(i,j)); nmod_poly_mat_window_init(m,par,i0,j0,i0+A.r,j0+A.c); } else nmod_poly_mat_init(m,A.r,A.c,ref::P); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) put(nmod_poly_mat_entry(m,i,j),A.at(i,j)); }
  explicit FPM(const ref::PMat&A){ mk(nullptr,A); } FPM(Gen&g,const ref::PMat&A){ mk(&g,A); } FPM(long r,long c){ mk(nullptr,ref::PMat(r,c)); }
  FPM(const FPM&)=delete; ~FPM(){ if(win){ nmod_poly_mat_window_clear(m); nmod_poly_mat_clear(par); } else nmod_poly_mat_clear(m); }
  operator nmod_poly_mat_struct*(){ return m; }
  void margin(const std::string&w)const{ if(!win) return; for(long i=0;i<out.r;i++) for(long j=0;j<out.c;j++) if(i<i0||i>=i0+in.r||j<j0||j>=j0+in.c) CHECK(ref::peq(get(nmod_poly_mat_entry(par,i,j)),out.at(i,j)),w+": entries outside the window were modified"); }
  ref::PMat val()const{ margin("matrix"); return get(m); }
  void kept(const std::string&w)const{ margin(w); CHECK(ref::meq(get(m),in),w+": input matrix was modified"); } };
struct FR { flint_rand_t st; FR(Gen&g){ flint_rand_init(st); u64 a=g.seed32(); flint_rand_set_seed(st,a,a*77+3); } ~FR(){ flint_rand_clear(st); } operator flint_rand_struct*(){ return st; } };
