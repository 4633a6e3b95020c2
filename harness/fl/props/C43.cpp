// C43: random generators of flint-extras: shape, form, and full use of what the description allows
#include "../orient.h"
#include "nmod32_vec.h"
#include "nmod_poly_extra.h"
#include <set>
const char*PROP_RULE="each case draws 160 values (300 for echelon forms) from one generator with one set of parameters (every generator of vectors, polynomials, constant matrices of given rank or echelon form, polynomial matrices of given lengths, matrix polynomials, Popov forms); in each value, entries outside the description are zero or one as described; over all values every coefficient the description leaves free takes at least two values in both halves of the field (every value, when the modulus is at most 3), neighbouring free coefficients are not always equal, all columns serve as pivots; non-trivial: at least two free coefficients";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, whose n_randint and permutations are uniform","full use is a statement with probability: below 2^-45 per case that a correct generator fails it"};
std::vector<Known> KNOWN={};
// kinds of coefficients: fixed value (FIX), any element (ANY), any non-zero element (NZ)
enum { FIX,ANY,NZ };
struct Cf { int k; u64 v; };
struct Use { std::vector<std::vector<u64>> seen; std::vector<int> k; void add(const std::vector<Cf>&d,const std::vector<u64>&x,const std::string&w){ CHECK(d.size()==x.size(),w+": size"); if(seen.empty()){ seen.resize(d.size()); k.resize(d.size()); for(size_t i=0;i<d.size();i++) k[i]=d[i].k; } for(size_t i=0;i<d.size();i++){ CHECK(x[i]<ref::P,w+": not reduced at "+std::to_string(i)); if(d[i].k==FIX) CHECK(x[i]==d[i].v,w+": coefficient "+std::to_string(i)+" is "+std::to_string(x[i])+" instead of "+std::to_string(d[i].v)); if(d[i].k==NZ) CHECK(x[i]!=0,w+": zero where a non-zero coefficient is described, at "+std::to_string(i)); seen[i].push_back(x[i]); } }
  void done(const std::string&w,bool pairs=true){ long prev=-1; for(size_t i=0;i<seen.size();i++){ if(k[i]==FIX) continue; u64 p=ref::P; const auto&v=seen[i]; if(k[i]==NZ&&p==2) continue; std::set<u64> s(v.begin(),v.end()); if(p<=3) CHECK((long)s.size()==(long)(k[i]==NZ?p-1:p),w+": coefficient "+std::to_string(i)+" takes only "+std::to_string(s.size())+" values in "+std::to_string(v.size())+" draws"); else { CHECK(*s.begin()<p/2,w+": coefficient "+std::to_string(i)+" never in the lower half of the field in "+std::to_string(v.size())+" draws"); CHECK(*s.rbegin()>=p/2,w+": coefficient "+std::to_string(i)+" never in the upper half of the field in "+std::to_string(v.size())+" draws"); if(p>=5&&v.size()>=64&&(k[i]==ANY)){ bool ev=false,od=false; for(u64 x:v){ ev|=x%2==0; od|=x%2==1; } CHECK(ev&&od,w+": coefficient "+std::to_string(i)+" always of the same parity"); } } if(pairs&&prev>=0) CHECK(seen[prev]!=v,w+": coefficients "+std::to_string(prev)+" and "+std::to_string(i)+" are always equal"); prev=(long)i; } } };
static long K(){ return 160; }
static long lenof(Gen&g){ switch(g.draw(4)){ case 0: return (long)g.draw(3)-1; case 1: return (long)g.draw(30); default: return (long)g.draw(8); } }
static std::vector<u64> coefs(const Poly&a,long n,const std::string&w){ CHECK((long)a.size()<=n,w+": length "+std::to_string(a.size())+" above its bound "+std::to_string(n)); std::vector<u64> x(a.begin(),a.end()); x.resize(n,0); return x; }
static void cat(std::vector<u64>&a,const std::vector<u64>&b){ a.insert(a.end(),b.begin(),b.end()); }
static void scalars(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); u64 k=g.draw(4); static const char*N[]={"_nmod_vec_rand","_nmod32_vec_rand","nmod_poly_rand","nmod_poly_rand_monic"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w); if(k==1&&ref::P>=(1ULL<<31)){ Field h=gen_field(g,F_SMALL|F_MED|F_TINY); (void)h; if(ref::P>=(1ULL<<32)) return; } long n=lenof(g); if(k<2) n=std::max(0L,n); c.note("length",n); NONTRIVIAL(c,n>=2); FR st(g); Use U; std::vector<Cf> d; long e=std::max(0L,n); for(long i=0;i<e;i++) d.push_back({k==3&&i==e-1?FIX:ANY,1%ref::P}); if(k<2){ d.push_back({FIX,77%ref::P}); }
  FP p(gen_poly(g,g.size(0,12))); for(long t=0;t<K();t++){ std::vector<u64> x; switch(k){ case 0: { x.assign(n+1,77%ref::P); _nmod_vec_rand(x.data(),st,n,MOD()); break; } case 1: { std::vector<unsigned> y(n+1,(unsigned)(77%ref::P)); _nmod32_vec_rand(y.data(),st,n,MOD()); x.assign(y.begin(),y.end()); break; } case 2: nmod_poly_rand(p,st,n); x=coefs(p.val(),e,w); break; default: nmod_poly_rand_monic(p,st,n); x=coefs(p.val(),e,w); } U.add(d,x,w); } U.done(w); }
// constant matrices: uniform; of given rank; echelon forms with given orientation
static void matrices(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=g.size(0,6),n=g.size(0,6),mn=std::min(m,n); u64 k=g.draw(10); long rk=(long)g.draw(mn+1); bool full=g.coin(1,3),unit=g.coin(1,2); if(full) rk=mn; static const char*N[]={"rand_lref","rand_uref","rand_lrref","rand_urref","rand_lcef","rand_ucef","rand_lrcef","rand_urcef","randrank_dense","rand"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w); c.note("dims",std::to_string(m)+"x"+std::to_string(n)); c.note("rank",rk); NONTRIVIAL(c,m>=2&&n>=2&&(k>=8||rk>=1)); FR st(g); CMat D(m,n); Rng q(g.seed32()); for(auto&x:D.a) x=q()%ref::P; FM M(g,D);
  auto call=[&]{ switch(k){ case 0: full?nmod_mat_rand_fullrank_lref(M,st,unit):nmod_mat_rand_lref(M,st,rk,unit); break; case 1: full?nmod_mat_rand_fullrank_uref(M,st,unit):nmod_mat_rand_uref(M,st,rk,unit); break; case 2: full?nmod_mat_rand_fullrank_lrref(M,st):nmod_mat_rand_lrref(M,st,rk); break; case 3: full?nmod_mat_rand_fullrank_urref(M,st):nmod_mat_rand_urref(M,st,rk); break; case 4: full?nmod_mat_rand_fullrank_lcef(M,st,unit):nmod_mat_rand_lcef(M,st,rk,unit); break; case 5: full?nmod_mat_rand_fullrank_ucef(M,st,unit):nmod_mat_rand_ucef(M,st,rk,unit); break; case 6: full?nmod_mat_rand_fullrank_lrcef(M,st):nmod_mat_rand_lrcef(M,st,rk); break; case 7: full?nmod_mat_rand_fullrank_urcef(M,st):nmod_mat_rand_urcef(M,st,rk); break; case 8: full?nmod_mat_rand_fullrank(M,st):nmod_mat_randrank_dense(M,st,rk); break; default: nmod_mat_rand(M,st); } };
  if(k>=8){ Use U; std::vector<Cf> d(m*n,{ANY,0}); long nz=0; std::vector<long> hit(m*n,0); for(long t=0;t<K();t++){ call(); CMat A=M.val(); if(k==9) U.add(d,A.a,w); else { CHECK(ref::crank(A)==rk,w+": rank "+std::to_string(ref::crank(A))+" instead of "+std::to_string(rk)); for(long i=0;i<m*n;i++) if(A.a[i]){ hit[i]++; nz++; } } } if(k==9) U.done(w); else if(rk>0) for(long i=0;i<m*n;i++) CHECK(hit[i],w+": entry "+std::to_string(i)+" is zero in all of "+std::to_string(K())+" draws"); return; }
  // everything in terms of lower row echelon forms of L (r x cc)
  bool col=k>=4,red=(k%4)>=2,up=k%2; long r=col?n:m,cc=col?m:n; // uref = columns reversed and rows in the same order
  if(col) up=!up;  // a lower column form is the transpose of an upper row form
  std::vector<std::vector<u64>> free_(r*cc); std::vector<long> piv(cc,0); long draws=300; for(long t=0;t<draws;t++){ call(); CMat A=M.val(); CMat L(r,cc); for(long i=0;i<r;i++) for(long j=0;j<cc;j++){ long jj=up?cc-1-j:j; L.at(i,j)=col?A.at(jj,i):A.at(i,jj); }
    std::vector<long> pv(rk); for(long i=0;i<r;i++){ long p=-1; for(long j=0;j<cc;j++) if(L.at(i,j)) p=j; if(i>=rk){ CHECK(p<0,w+": non-zero line beyond the rank"); continue; } CHECK(p>=0,w+": zero line within the rank"); pv[i]=p; piv[p]++; if(i&&!up) CHECK(pv[i]>pv[i-1],w+": pivots are not increasing"); if(i&&up) CHECK(pv[i]<pv[i-1],w+": pivots are not increasing"); if(unit||red) CHECK(L.at(i,p)==1%ref::P,w+": pivot entry is not one"); }
    for(long i=0;i<rk;i++) for(long j=0;j<=pv[i];j++){ bool isp=false; long o=-1; for(long x=0;x<rk;x++) if(x!=i&&pv[x]==j){ isp=true; o=x; } (void)o; if(red&&isp){ CHECK(L.at(i,j)==0,w+": entry in the column of another pivot"); continue; } if(j==pv[i]){ if(!(unit||red)) free_[i*cc+j].push_back(L.at(i,j)); } else free_[i*cc+j].push_back(L.at(i,j)); } }
  if(rk>0) for(long j=0;j<cc;j++) CHECK(piv[j]>0||rk<0,w+": line "+std::to_string(j)+" is never a pivot in "+std::to_string(draws)+" draws of rank "+std::to_string(rk));
  for(auto&v:free_) if(v.size()>=100&&ref::P>=3){ u64 mx=*std::max_element(v.begin(),v.end()),mi=*std::min_element(v.begin(),v.end()); CHECK(ref::P>3?mx>=ref::P/2:mx==ref::P-1,w+": a free entry never in the upper half of the field"); CHECK(mi<=ref::P/2&&mi!=mx,w+": a free entry never in the lower half of the field"); }
  long tot=0; for(auto&v:free_) tot+=v.size(); c.tag(tot?"free":"no free entry"); }
static void polymats(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=g.size(0,4),n=g.size(0,4); u64 k=g.draw(8); static const char*N[]={"nmod_poly_mat_rand","nmod_poly_mat_rand_row_degree","nmod_poly_mat_rand_column_degree","nmod_poly_mat_rand_degree_matrix","nmod_poly_mat_rand_popov","nmod_poly_mat_rand_popov","nmod_mat_poly_rand","nmod_mat_poly_randtest"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w); FR st(g); Use U; std::vector<Cf> d; 
  if(k<4){ long L0=lenof(g); VL rl(r),cl(n); for(auto&x:rl) x=lenof(g); for(auto&x:cl) x=lenof(g); fmpz_mat_t dm; fmpz_mat_init(dm,r,n); std::vector<long> B(r*n); for(long i=0;i<r;i++) for(long j=0;j<n;j++){ long b=k==0?L0:k==1?rl[i]:k==2?cl[j]:lenof(g); *fmpz_mat_entry(dm,i,j)=b; B[i*n+j]=std::max(0L,b); for(long e=0;e<B[i*n+j];e++) d.push_back({ANY,0}); } c.note("dims",std::to_string(r)+"x"+std::to_string(n)); NONTRIVIAL(c,d.size()>=2); FPM M(g,gen_pmat(g,r,n,3)); for(long t=0;t<K();t++){ switch(k){ case 0: nmod_poly_mat_rand(M,st,L0); break; case 1: nmod_poly_mat_rand_row_degree(M,st,rl.data()); break; case 2: nmod_poly_mat_rand_column_degree(M,st,cl.data()); break; default: nmod_poly_mat_rand_degree_matrix(M,st,dm); } PMat A=M.val(); std::vector<u64> x; for(long i=0;i<r*n;i++) cat(x,coefs(A.a[i],B[i],w)); U.add(d,x,w); } U.done(w); fmpz_mat_clear(dm); return; }
  if(k>=6){ r=1+(long)g.draw(3); n=1+(long)g.draw(3); long len=(long)g.draw(7); c.note("dims",std::to_string(r)+"x"+std::to_string(n)); c.note("length",len); NONTRIVIAL(c,len>=2); d.assign(r*n*len,{ANY,0}); nmod_mat_poly_t m; nmod_mat_poly_init(m,r,n,ref::P); std::vector<long> hit(r*n*len,0); for(long t=0;t<K();t++){ if(k==6) nmod_mat_poly_rand(m,st,len); else nmod_mat_poly_randtest(m,st,len); CHECK(m->length<=len,w+": length"); std::vector<u64> x; for(long e=0;e<len;e++){ CMat C(r,n); if(e<m->length) C=get(m->coeffs+e); CHECK(C.r==r&&C.c==n,w+": shape"); cat(x,C.a); } if(k==6) U.add(d,x,w); else for(size_t i=0;i<x.size();i++) hit[i]+=x[i]!=0; } if(k==6) U.done(w); else for(long h:hit) CHECK(h>0,w+": a coefficient is zero in all of "+std::to_string(K())+" draws"); nmod_mat_poly_clear(m); return; }
  r=1+(long)g.draw(4); n=r+(long)g.draw(3); orientation_t o=k==4?ROW_LOWER:COL_UPPER; VL s=gen_shift(g,n,4); std::vector<long> cols(n); for(long i=0;i<n;i++) cols[i]=i; Rng q(g.seed32()); for(long i=0;i<n;i++) std::swap(cols[i],cols[i+q.below(n-i)]); cols.resize(r); std::sort(cols.begin(),cols.end()); VL pd(r); for(auto&x:pd) x=(long)q.below(5); bool ns=g.coin(1,4); if(ns) s.assign(n,0); bool np=r==n&&g.coin(1,2); c.note("orient",oname(o)); c.note("shift",vstr(s)); c.note("pivots",vstr(VL(cols.begin(),cols.end()))); c.note("degrees",vstr(pd));
  std::vector<long> B(r*n); for(long i=0;i<r;i++) for(long j=0;j<n;j++){ long b=j==cols[i]?pd[i]:pd[i]+s[cols[i]]-s[j]-(j>cols[i]); for(long x=0;x<r;x++) if(x!=i&&cols[x]==j) b=std::min(b,pd[x]-1); B[i*n+j]=std::max(0L,b+1); for(long e=0;e<B[i*n+j];e++) d.push_back({j==cols[i]&&e==pd[i]?FIX:ANY,1%ref::P}); } NONTRIVIAL(c,d.size()>=4); FPM M(g,isrow(o)?gen_pmat(g,r,n,3):gen_pmat(g,n,r,3)); for(long t=0;t<K();t++){ nmod_poly_mat_rand_popov(M,st,np?nullptr:cols.data(),pd.data(),ns?nullptr:s.data(),o); PMat A=M.val(); PMat Lw=isrow(o)?A:ref::mtr(A); std::vector<u64> x; for(long i=0;i<r*n;i++) cat(x,coefs(Lw.a[i],B[i],w)); U.add(d,x,w); } U.done(w); }
std::vector<Sub> SUBS={{"scalars",scalars,60000,1000000,300},{"matrices",matrices,60000,1000000,300},{"polymats",polymats,60000,1000000,300}};
