// C01: field / vector / constant-matrix helpers
#include "h.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "mat_lzz_p_extra.h"
using namespace NTL; 
const char* PROP_RULE="random modulus (2..60 bit, FFT and non-FFT), random element/vector/dimension; non-trivial: modulus > 3 and the element is neither 0 nor 1 / the vector or matrix has at least 2 entries";
std::vector<std::string> ASSUMPTIONS={"moduli are prime (the only moduli generated)"};
std::vector<Known> KNOWN={};
static u64 ref_order(u64 a){ u64 o=1,x=a; while(x!=1%ref::P){ x=ref::mul(x,a); o++; } return o; }
static void t_order(Gen&g,Case&c){ bool smallp=g.coin(2,3); if(smallp){ Field f=gen_field(g,F_TINY|F_SMALL); note_field(c,f); u64 a=gen_elem(g); if(ref::P==2) {} c.note("a",a); long o=PML::order(Z(a)); NONTRIVIAL(c,ref::P>3&&a>1);
    if(a==0){ CHECK(o==-1,"order(0) != -1, got "+std::to_string(o)); return; } CHECK(o==(long)ref_order(a),"order wrong: got "+std::to_string(o)); c.tag(o==(long)(ref::P-1)?"primitive":"nonprimitive"); }
  else { Field f=gen_field(g,F_MED|F_BIG|F_FFT|F_USERFFT); note_field(c,f); u64 q=0; for(u64 t:{7,5,3,2}) if((ref::P-1)%t==0){ q=t; if(g.coin(1,2)) break; } u64 e=q; while((ref::P-1)%(e*q)==0&&e*q<4000&&g.coin(1,2)) e*=q; u64 a=ref::pw(gen_nz(g),(ref::P-1)/e); c.note("a",a); NONTRIVIAL(c,a>1); long o=PML::order(Z(a)); CHECK(o==(long)ref_order(a),"order wrong: got "+std::to_string(o)); c.tag("big"); } }
static void t_elt(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long mx=(long)std::min<u64>(ref::P-1,3000); long ord=g.size(1,mx); bool strong=g.coin(1,2); long nt=g.pick<long>({100,100,1,5,0}); c.note("ord",ord); c.note("trials",nt); c.note("strong",strong);
  zz_p a=Z(gen_elem(g)); if(g.coin(1,2)) PML::element_of_order(a,ord,nt,strong); else a=PML::element_of_order(ord,nt,strong); u64 x=get(a); NONTRIVIAL(c,ref::P>3&&x>1);
  if(x==0){ c.tag("none"); /* legal only if not guaranteed to be found: density of suitable elements must be small enough */ if(nt>=100&&ref::P>1000&&(u64)ord*ord<ref::P/1000) FAIL("no element found although almost every element qualifies"); if(nt==0) c.tag("zero-trials"); return; }
  CHECK(nt>0,"non-zero answer without any trial");
  u64 y=x; for(long i=1;i<ord;i++){ CHECK(y!=1%ref::P,"element has order "+std::to_string(i)+" < requested"); y=ref::mul(y,x); } c.tag("found"); }
static void t_vinv(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=g.size(0,200); c.note("n",n); ref::Vec v=gen_list(g,n); for(auto&x:v) if(x==0) x=1%ref::P; NONTRIVIAL(c,n>=2&&ref::P>3); Vec<zz_p> A=putv(v),B; int mode=(int)g.draw(5); c.note("mode",mode);
  if(mode==0){ PML::inv(B,A); } else if(mode==4) B=PML::inv(A); else if(mode==1){ PML::inv(A,A); B=A; A=putv(v);} else if(mode==2){ B.SetLength(g.size(0,50)); PML::inv_naive(B,A);} else { PML::inv_naive(A,A); B=A; A=putv(v);} 
  ref::Vec b=get(B); CHECK(b.size()==v.size(),"wrong length"); for(long i=0;i<n;i++) CHECK(ref::mul(b[i],v[i])==1%ref::P,"entry "+std::to_string(i)+" is not the inverse"); CHECK(get(A)==v,"input modified");
  Vec<mulmod_precon_t> pr; if(g.coin(1,2)) pr=PML::precomp(A); else PML::precomp(pr,A); CHECK(pr.length()==n,"precomp length"); for(long i=0;i<n&&i<20;i++){ u64 y=gen_elem(g); long r=MulModPrecon((long)y,(long)v[i],zz_p::modulus(),pr[i]); CHECK((u64)r==ref::mul(y,v[i]),"precomputed multiplication wrong at "+std::to_string(i)); } }
static void t_mats(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=g.size(1,30); c.note("n",n); NONTRIVIAL(c,n>=2); u64 cc=gen_elem(g); ref::CMat Zm(n,n),J(n,n);
  { auto A=get(PML::Z_lzz_p(n,Z(cc))); ref::CMat E(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++) E.at(i,j)=(i==0&&j==n-1)?cc:(i==j+1?1%ref::P:0); CHECK(A==E,"Z matrix wrong "+ref::cstr(A)); }
  { auto A=get(PML::J_lzz_p(n)); ref::CMat E(n,n); for(long i=0;i<n;i++) E.at(i,n-1-i)=1%ref::P; CHECK(A==E,"J matrix wrong"); }
  { ref::Vec d=gen_list(g,n-1+(long)g.draw(2)); auto A=get(PML::diagonal_matrix(putv(d))); ref::CMat E(d.size(),d.size()); for(size_t i=0;i<d.size();i++) E.at(i,i)=d[i]; CHECK(A==E,"diagonal matrix wrong"); }
  { long r=g.size(0,12),cl=g.size(0,12); ref::CMat M=gen_cmat(g,r,cl); Mat<zz_p> A=put(M); long ro=g.range(0,r+2),co=g.range(0,cl+2),nr=g.range(0,r+3),nc=g.range(0,cl+3); PML::clear(A,ro,co,nr,nc); for(long i=ro;i<ro+nr&&i<r;i++) for(long j=co;j<co+nc&&j<cl;j++) M.at(i,j)=0; CHECK(get(A)==M,"window clear wrong"); } 
  long tp=PML::type_of_prime(); bool fft=(f.kind==F_FFT||f.kind==F_USERFFT); CHECK(PML::is_FFT_prime()==fft,"FFT prime classification"); CHECK(tp==(fft?TYPE_FFT_PRIME:(ref::P<(1ULL<<25)?TYPE_SMALL_PRIME:TYPE_LARGE_PRIME)),"prime type classification");
  long k=g.range(0,30); u64 v2=0,t=ref::P-1; while(t&&t%2==0){t/=2;v2++;} bool rdy=PML::is_FFT_ready(k); CHECK(!rdy||(fft&&(u64)k<=v2),"claims FFT readiness for transforms the modulus cannot support"); CHECK(fft||!rdy,"non-FFT prime ready"); if(fft&&k<=14) CHECK(rdy,"FFT prime not ready for small transform"); }
std::vector<Sub> SUBS={{"order",t_order,60000,800000,400},{"element_of_order",t_elt,80000,1600000,400},{"vec_inv",t_vinv,80000,2400000,400},{"matrices",t_mats,80000,2400000,400}};
