// C02: truncated power series division, Taylor shift, add-shift on polynomials
#include "h.h"
#include "lzz_pX_extra.h"
using namespace NTL; using ref::Poly;
const char* PROP_RULE="random modulus of every class, polynomials with dense/sparse/short/valuation styles and degrees straddling the plain/Newton and base-case thresholds, random aliasing; non-trivial: both operands non-zero and the precision / degree bound is at least 2";
std::vector<std::string> ASSUMPTIONS={"moduli are prime"};
std::vector<Known> KNOWN={};
static long gsz(Gen&g,long hi){ // sizes including Newton crossover neighbourhood
  switch(g.draw(6)){ case 0: return g.range(0,8); case 1: return g.range(0,40); case 2: return g.range(30,140); case 3: { long b=1L<<g.range(3,9); return std::min(hi,std::max(0L,b+g.range(-3,3))); } default: return g.range(0,hi);} }
static void t_div(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=gsz(g,700); long la=std::max(1L,gsz(g,m+40)), lb=gsz(g,m+40); if(g.coin(1,4)) la=1+(long)g.draw(6); if(g.coin(1,5)) lb=(long)g.draw(6);
  Poly a=gen_poly(g,la),b=gen_poly(g,lb); if(a.empty()) a.push_back(0); if(a[0]==0) a[0]=gen_nz(g); if(g.coin(1,6)) { b=ref::ptrunc(ref::pmul(a,gen_poly(g,1+(long)g.draw(5))),m+30);} // exact quotients
  c.note("m",m); c.note("deg_a",ref::deg(a)); c.note("deg_b",ref::deg(b)); NONTRIVIAL(c,m>=2&&ref::deg(b)>=0&&ref::deg(a)>0); c.tag(m>NTL_zz_pX_NEWTON_CROSSOVER?"m>crossover":"m<=crossover");
  zz_pX A=put(a),B=put(b),F; int mode=(int)g.draw(5); c.note("alias",mode); if(mode==0) PML::InvTruncMul(F,B,A,m); else if(mode==4) F=PML::InvTruncMul(B,A,m); else if(mode==1){ F=A; PML::InvTruncMul(F,B,F,m);} else if(mode==2){ F=B; PML::InvTruncMul(F,F,A,m);} else { F=put(gen_dense(g,20)); PML::InvTruncMul(F,B,A,m);} 
  Poly q=get(F); CHECK(ref::deg(q)<m||m==0&&q.empty(),"degree >= precision"); Poly r=ref::ptrunc(ref::pmul(q,a),m); CHECK(ref::peq(r,ref::ptrunc(b,m)),"a*f != b mod x^m"); CHECK(ref::peq(get(A),a)&&ref::peq(get(B),b),"input modified"); }
static Poly taylor(const Poly&f,u64 cc){ Poly r; for(long i=(long)f.size()-1;i>=0;i--){ Poly s2(r.size()+1,0); for(size_t k=0;k<r.size();k++){ s2[k+1]=ref::add(s2[k+1],r[k]); s2[k]=ref::add(s2[k],ref::mul(r[k],cc)); } if(s2.empty()) s2.push_back(0); s2[0]=ref::add(s2[0],f[i]); r=s2; } ref::norm(r); return r; }
static void t_shift(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long d=g.coin(1,3)?gsz(g,400):g.range(0,70); u64 cc=gen_elem(g); int which=(int)g.draw(4); long reps=1+(long)g.draw(3); c.note("d",d); c.note("c",cc); c.note("which",which);
  bool large=(u64)d<ref::P; std::unique_ptr<PML::zz_pX_shift> sh; PML::zz_pX_shift_DAC dac; PML::zz_pX_shift_large_characteristic lc; PML::zz_pX_shift*S=nullptr;
  if(which==1){ dac=PML::zz_pX_shift_DAC(d,Z(cc)); S=&dac; c.tag("DAC"); } else if(which==2&&large){ lc=PML::zz_pX_shift_large_characteristic(d,Z(cc)); S=&lc; c.tag("large-char"); } else if(which!=3||1){ sh=PML::get_shift(d,Z(cc)); S=sh.get(); c.tag(large?"get:large":"get:small"); }
  for(long r=0;r<reps;r++){ long l=(long)g.draw(d+2); if(g.coin(1,2)) l=d+1; Poly p=gen_poly(g,l); NONTRIVIAL(c,ref::deg(p)>=2&&cc!=0); Poly e=taylor(p,cc); zz_pX F=put(p),G; bool al=g.coin(1,2); if(al){ S->shift(F,F); G=F; } else S->shift(G,F); Poly q=get(G); CHECK(ref::peq(q,e),"Taylor shift wrong: deg f="+std::to_string(ref::deg(p))+(al?" aliased":"")); }
  { Poly p=gen_poly(g,d+1); zz_pX F=put(p),G; if(g.coin(1,2)) PML::shift(G,F,Z(cc)); else if(g.coin(1,2)) G=PML::shift(F,Z(cc)); else { PML::shift(F,F,Z(cc)); G=F; } CHECK(ref::peq(get(G),taylor(p,cc)),"one-shot Taylor shift wrong, deg f="+std::to_string(ref::deg(p))); } }
static void t_addls(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long k=g.size(0,40); Poly a=gen_poly(g,g.size(0,60)),b=gen_poly(g,g.size(0,60)); if(g.coin(1,4)&&!b.empty()) a=ref::pneg(ref::pshl(b,k)); if(g.coin(1,6)&&!a.empty()) a=ref::padd(ref::pneg(ref::pshl(b,k)),gen_poly(g,(long)g.draw(5)));
  c.note("k",k); c.note("deg_a",ref::deg(a)); c.note("deg_b",ref::deg(b)); NONTRIVIAL(c,!a.empty()&&!b.empty()); Poly e=ref::padd(a,ref::pshl(b,k)); zz_pX A=put(a),B=put(b),C; int mode=(int)g.draw(4); c.note("alias",mode);
  if(mode==0) PML::add_LeftShift(C,A,B,k); else if(mode==1){ PML::add_LeftShift(A,A,B,k); C=A; } else if(mode==2){ PML::add_LeftShift(B,A,B,k); C=B; } else { C=put(gen_dense(g,50)); PML::add_LeftShift(C,A,B,k);} 
  CHECK(ref::peq(get(C),e),"a + x^k b wrong"); bool mon=PML::is_monic(put(e)); CHECK(mon==(!e.empty()&&e.back()==1%ref::P),"is_monic wrong"); }
// long operands: NTL products as the oracle, evaluation at random points for shifts
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ if(g.coin(1,2)){ Field f=gen_field(g); note_field(c,f); long m=llen(g,700,6000); zz_pX a=lpoly(g,g.coin(1,3)?1+(long)g.draw(50):llen(g,500,6000)),b=lpoly(g,g.coin(1,4)?1+(long)g.draw(50):llen(g,500,6500)); if(IsZero(ConstTerm(a))) SetCoeff(a,0,Z(gen_nz(g))); c.note("m",m); c.note("deg_a",deg(a)); c.note("deg_b",deg(b)); NONTRIVIAL(c,deg(b)>=0); zz_pX r,t; PML::InvTruncMul(r,b,a,m); CHECK(deg(r)<m,"degree >= precision"); MulTrunc(t,r,a,m); CHECK(t==trunc(b,m),"a*f != b mod x^m"); }
  else { Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long d=llen(g,400,5000); zz_p cc=Z(gen_elem(g)); c.note("d",d); c.note("c",rep(cc)); NONTRIVIAL(c,true); zz_pX p=lpoly(g,g.coin(2,3)?d+1:1+(long)g.draw(d+1)),r; if(g.coin(1,2)){ PML::zz_pX_shift_DAC s(d,cc); s.shift(r,p); } else if(g.coin(1,2)){ PML::zz_pX_shift_large_characteristic s(d,cc); s.shift(r,p); } else { auto s=PML::get_shift(d,cc); s->shift(r,p); } CHECK(deg(r)==deg(p)&&(deg(p)<0||LeadCoeff(r)==LeadCoeff(p)),"Taylor shift: degree or leading coefficient wrong"); Rng q(g.seed32()); for(int t=0;t<3;t++){ zz_p x=Z(q()%ref::P); CHECK(eval(r,x)==eval(p,x+cc),"Taylor shift wrong at a random point"); } } }
std::vector<Sub> SUBS={{"series_division",t_div,100000,3200000,200},{"taylor_shift",t_shift,100000,2400000,200},{"add_shift",t_addls,120000,3200000,800},{"long",t_long,600,20000,40}};
