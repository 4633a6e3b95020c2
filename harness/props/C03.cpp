// C03: middle product of polynomials
#include "h.h"
#include "lzz_pX_middle_product.h"
using namespace NTL; using ref::Poly;
const char* PROP_RULE="random modulus (every size class, extra weight on the delayed-reduction bound around 2^27.5), dA/dB from 0 to several hundred straddling the naive/Karatsuba/FFT thresholds, operands shorter or longer than the bounds, random aliasing; non-trivial: both operands non-zero and dA+dB >= 2";
std::vector<std::string> ASSUMPTIONS={"moduli are prime; dA,dB >= 0"};
std::vector<Known> KNOWN={};
static long gd(Gen&g){ switch(g.draw(8)){ case 0: return g.range(0,6); case 1: return g.range(0,40); case 2: return g.range(28,36); case 3: return g.range(60,70); case 4: return g.range(0,150); case 5: return g.range(NTL_zz_pX_MUL_CROSSOVER-3,NTL_zz_pX_MUL_CROSSOVER+3); case 6: return g.range(0,600); default: return g.range(0,20);} }
static Field gf(Gen&g){ if(g.coin(1,4)){ Field f; f.kind=F_MED; f.idx=0; u64 b=185363800; f.p=prevprime(b-g.draw(1000000)); if(g.coin(1,3)) f.p=nextprime((1ULL<<27)+g.draw(1ULL<<27)); set_field(f); return f; } return gen_field(g); }
static void ck(const Poly&r,const Poly&a,const Poly&cp,long dA,long dB,const char*w){ Poly e=ref::pslice(ref::pmul(ref::ptrunc(a,dA+1),cp),dA,dB+1); CHECK(ref::peq(r,e),std::string(w)+" differs from the slice of the product"); }
static void t_mp(Gen&g,Case&c){ Field f=gf(g); note_field(c,f); long dA=gd(g),dB=gd(g); long la=dA+1,lc=dA+dB+1; switch(g.draw(6)){ case 0: la=(long)g.draw(dA+2); break; case 1: la=dA+1+(long)g.draw(20); break; case 2: lc=(long)g.draw(lc+1); break; case 3: lc+=(long)g.draw(40); break; }
  Poly a=gen_poly(g,la),cc=gen_poly(g,lc); c.note("dA",dA); c.note("dB",dB); c.note("deg_a",ref::deg(a)); c.note("deg_c",ref::deg(cc)); NONTRIVIAL(c,!a.empty()&&!cc.empty()&&dA+dB>=2); 
  c.tag(std::min(dA,dB)<KARX?"naive":(dA>NTL_zz_pX_MUL_CROSSOVER&&dB>NTL_zz_pX_MUL_CROSSOVER?"fft":"karatsuba")); if(ref::deg(a)<dA) c.tag("short-a");
  zz_pX A=put(a),C=put(cc),B; int mode=(int)g.draw(5); c.note("alias",mode); if(mode==0) PML::middle_product(B,A,C,dA,dB); else if(mode==1){ PML::middle_product(A,A,C,dA,dB); B=A; A=put(a);} else if(mode==2){ PML::middle_product(C,A,C,dA,dB); B=C; C=put(cc);} else if(mode==3) B=PML::middle_product(A,C,dA,dB); else { B=put(gen_dense(g,40)); PML::middle_product(B,A,C,dA,dB);} 
  ck(get(B),a,cc,dA,dB,"middle_product"); CHECK(ref::peq(get(A),a)&&ref::peq(get(C),cc),"input modified");
  if(mode==4) PML::middle_FFT(B,A,C,dA,dB); else if(mode==1){ PML::middle_FFT(A,A,C,dA,dB); B=A;} else if(mode==2){ PML::middle_FFT(C,A,C,dA,dB); B=C; } else { zz_pX t; PML::middle_FFT(t,A,C,dA,dB); B=t; } ck(get(B),a,cc,dA,dB,"middle_FFT"); }
static void t_sq(Gen&g,Case&c){ Field f=gf(g); note_field(c,f); long N=1+gd(g); Poly a=gen_poly(g,N),cc=gen_poly(g,2*N-1); c.note("N",N); NONTRIVIAL(c,!a.empty()&&!cc.empty()&&N>=2); zz_pX A=put(a),C=put(cc); zz_pX B=PML::middle_product(A,C,N); ck(get(B),a,cc,N-1,N-1,"square middle_product"); PML::middle_FFT(B,A,C,N); ck(get(B),a,cc,N-1,N-1,"square middle_FFT"); }
// the raw-array Karatsuba kernel with its declared scratch size
static void t_raw(Gen&g,Case&c){ Field f=gf(g); note_field(c,f); long sa=1+gd(g)%200,sb=1+gd(g)%200; if(g.coin(1,3)){ sa=32+(long)g.draw(80); sb=32+(long)g.draw(80);} long sc=sa+sb-1; ref::Vec a=gen_list(g,sa),cc=gen_list(g,sc); c.note("sa",sa); c.note("sb",sb); NONTRIVIAL(c,sa>1&&sb>1);
  if((sa<KARX||sb<KARX)&&sa>KARX&&ref::P<(1ULL<<28)) { c.tag("long-naive"); }
  Vec<zz_p> A=putv(a),C=putv(cc),B,S; B.SetLength(sb); S.SetLength(PML::Kar_stk_size(std::max(sa,sb))); PML::tKarMul_aux(B.elts(),sb,A.elts(),sa,C.elts(),sc,S.elts()); ref::Vec b=get(B);
  for(long j=0;j<sb;j++){ unsigned __int128 t=0; for(long i=0;i<sa;i++){ t+=(unsigned __int128)cc[i+j]*a[i]; if((i&63)==63) t%=ref::P; } CHECK(b[j]==(u64)(t%ref::P),"transposed product entry "+std::to_string(j)+" wrong"); } }
// long operands: NTL products as the oracle
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ Field f=gf(g); note_field(c,f); long dA=llen(g,100,5000),dB=g.coin(1,2)?dA+g.range(-3,3):llen(g,100,5000); if(g.coin(1,6)) dB=g.range(0,60); if(g.coin(1,6)) dA=g.range(0,60); zz_pX a=lpoly(g,dA+1),cc=lpoly(g,dA+dB+1),b,w; c.note("dA",dA); c.note("dB",dB); NONTRIVIAL(c,true); PML::middle_product(b,a,cc,dA,dB); mul(w,a,cc); w=trunc(RightShift(w,dA),dB+1); CHECK(b==w,"middle product differs from the slice of the product"); }
std::vector<Sub> SUBS={{"middle_product",t_mp,160000,4800000,400},{"square",t_sq,60000,1600000,400},{"raw_kernel",t_raw,80000,2400000,400},{"long",t_long,600,20000,40}};
