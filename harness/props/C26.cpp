// C26: determinants and basis reduction
#include "bases.h"
#include "mat_lzz_pX_determinant.h"
const char* PROP_RULE="(1) minors (dim 1..4), recursive minors (1..5), evaluation at general, geometric and FFT points (1..6, a share up to 14), on dense/sparse/low-rank/zero/unbalanced matrices of degree 0..12, every prime size large enough for the points: equals the reference determinant (fraction-free elimination); (2) determinant_generic_knowing_degree with the true degree on the same matrices up to dimension 9 (a share up to 16) and on products with unimodular or singular factors: success implies the determinant up to a non-zero constant, and random dense matrices over primes above 2^33 succeed; (3) determinant_via_linsolve on random dense matrices with invertible constant term over primes above 2^33: the determinant up to a constant; (4) verify_determinant accepts the determinant (times a constant when allowed) and rejects wrong ones over primes above 2^33; (5) reduced_form_gjv on unimodular transforms of row-reduced matrices with invertible constant term: row-reduced, same determinant up to a constant, input a polynomial multiple of it; non-trivial: dimension at least 2 and degree at least 1";
std::vector<std::string> ASSUMPTIONS={"field large enough for the required number of points (documented)","determinant_via_linsolve and reduced_form_gjv: constant term invertible (documented), generic for the former","the degree given to determinant_generic_knowing_degree is the true one (documented)","determinant() and deterministic verify_determinant are documented as not implemented"};
static bool upto(const Poly&a,const Poly&b){ return ref::peq(ref::pmonic(a),ref::pmonic(b)); }
static PMat unimod(Gen&g,long n,long d){ PMat L=gen_pmat_dense(g,n,n,d),U=gen_pmat_dense(g,n,n,d); for(long i=0;i<n;i++){ L.at(i,i)=Poly{1%ref::P}; U.at(i,i)=Poly{1%ref::P}; for(long j=i+1;j<n;j++){ L.at(i,j).clear(); U.at(j,i).clear(); } } return ref::mmul(L,U); }
static PMat gen_D(Gen&g,long n,long d){ switch(g.draw(9)){ case 0: case 1: case 2: return gen_pmat_dense(g,n,n,d); case 3: return gen_series(g,n,n,d); case 4: { long r=std::max(1L,n-1-(long)g.draw(2)); return ref::mmul(gen_pmat_dense(g,n,r,1+d/2),gen_pmat_dense(g,r,n,1+d/2)); } case 5: return ref::mmul(unimod(g,n,2),gen_pmat(g,n,n,d)); case 6: { PMat F(n,n); Rng q(g.seed32()); bool col=g.coin(1,2); for(long i=0;i<n;i++){ long e=(long)q.below(d+1); for(long j=0;j<n;j++){ Poly p; for(long k=0;k<e;k++) p.push_back(q()%ref::P); ref::norm(p); if(col) F.at(j,i)=p; else F.at(i,j)=p; } } return F; } case 7: { PMat F=gen_pmat_dense(g,n,n,d); for(long i=0;i<n;i++) for(long j=0;j<i;j++) F.at(i,j).clear(); return F; } default: return gen_pmat(g,n,n,d); } }
static zz_pX odet(Gen&g){ return g.coin(1,2)?put(gen_dense(g,5)):zz_pX(); }
static void t_exact(Gen&g,Case&c){ static const char*nm[]={"minors","minors-rec","general","geometric","fft"}; u64 a=g.draw(5); long n=a==0?1+(long)g.draw(4):a==1?1+(long)g.draw(5):1+g.size(0,5); long d=g.size(0,g.coin(1,4)?12:4); if(a>=2&&g.coin(1,300)) n=7+(long)g.draw(8); u64 need=(u64)(n*(d+6)+1); Field f=a==4?gen_field(g,F_FFT|F_USERFFT):a==3?gen_field(g,F_ALL,16*need):a==2?gen_field(g,F_ALL,need+1):gen_field(g); note_field(c,f); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); PMat F=gen_D(g,n,d+1); c.note("n",n); c.note("deg",ref::mdeg(F)); NONTRIVIAL(c,n>=2&&ref::mdeg(F)>=1); Poly D=ref::mdet(F); if(ref::deg(D)<0) c.tag("singular"); zz_pX r=odet(g); Mat<zz_pX> fm=put(F); switch(a){ case 0: determinant_expansion_by_minors(r,fm); break; case 1: determinant_expansion_by_minors_rec(r,fm); break; case 2: determinant_via_evaluation_general(r,fm); break; case 3: determinant_via_evaluation_geometric(r,fm); break; default: determinant_via_evaluation_FFT(r,fm); } CHECK(ref::peq(get(r),D),std::string("determinant ")+nm[a]+" returned "+ref::pstr(get(r))+" instead of "+ref::pstr(D)); ckm(fm,F,"input afterwards"); }
static void t_know(Gen&g,Case&c){ bool gen=g.coin(1,4); Field f=gen?gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33):gen_field(g); note_field(c,f); long n=1+g.size(0,g.coin(1,3)?8:5),d=g.size(0,4); if(g.coin(1,200)) n=9+(long)g.draw(8); PMat F=gen?gen_pmat_dense(g,n,n,d+1):gen_D(g,n,d+1); Poly D=ref::mdet(F); c.note("generic",gen); c.note("n",n); c.note("deg",ref::mdeg(F)); c.note("degdet",ref::deg(D)); NONTRIVIAL(c,n>=5&&ref::mdeg(F)>=1); Mat<zz_pX> fm=put(F); zz_pX r=odet(g); bool ok=determinant_generic_knowing_degree(r,fm,ref::deg(D)); c.tag(ok?"success":"failure"); if(gen) CHECK(ok,"generic matrix: failure reported"); if(ok) CHECK(upto(get(r),D),"success reported with "+ref::pstr(ref::pmonic(get(r)))+" instead of "+ref::pstr(ref::pmonic(D))); ckm(fm,F,"input afterwards"); }
static void t_lins(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long n=1+g.size(0,5),d=g.size(0,g.coin(1,4)?12:4); PMat F=gen_pmat_dense(g,n,n,d+1); c.note("n",n); c.note("deg",d); NONTRIVIAL(c,n>=2&&d>=1); zz_pX r=odet(g); Mat<zz_pX> fm=put(F); determinant_via_linsolve(r,fm); Poly D=ref::mdet(F); CHECK(upto(get(r),D),"determinant_via_linsolve returned "+ref::pstr(get(r))+" instead of "+ref::pstr(D)); ckm(fm,F,"input afterwards"); }
static void t_ver(Gen&g,Case&c){ bool good=g.coin(1,2); Field f=good?gen_field(g):gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long n=1+g.size(0,5),d=g.size(0,5); PMat F=gen_D(g,n,d+1); Poly D=ref::mdet(F); bool up=g.coin(1,2); c.note("n",n); c.note("deg",ref::mdeg(F)); c.note("correct",good); c.note("up_to_constant",up); NONTRIVIAL(c,n>=2&&ref::deg(D)>=1); Mat<zz_pX> fm=put(F); u64 k=1+g.draw(ref::P-1); if(good){ Poly E=up?ref::pscale(D,k):D; CHECK(verify_determinant(put(E),fm,up,true),"correct determinant rejected"); return; } if(ref::deg(D)<1) throw Discard(); Poly E=D; switch(g.draw(4)){ case 0: E[(size_t)g.draw(E.size())]=g.draw(ref::P); break; case 1: E.push_back(1+g.draw(ref::P-1)); break; case 2: if(!up) E=ref::pscale(D,k); else E.pop_back(); break; default: E=ref::pmul(D,Poly{g.draw(ref::P),1}); } ref::norm(E); bool same=up?(upto(E,D)||ref::deg(E)<0):ref::peq(E,D); if(same) throw Discard(); CHECK(!verify_determinant(put(E),fm,up,true),"wrong determinant accepted"); }
static PMat madj(const PMat&A){ long n=A.r; PMat R(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ PMat S(n-1,n-1); for(long a=0,x=0;a<n;a++) if(a!=i){ for(long b=0,y=0;b<n;b++) if(b!=j) S.at(x,y++)=A.at(a,b); x++; } Poly d=ref::mdet(S); R.at(j,i)=(i+j)&1?ref::pneg(d):d; } return R; }
static void t_red(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=1+g.size(0,4),d=g.size(0,4); bool un=g.coin(1,2); PMat F=un?ref::mmul(unimod(g,n,1+(long)g.draw(3)),gen_D(g,n,d+1)):gen_D(g,n,d+1); c.note("n",n); c.note("deg",ref::mdeg(F)); c.note("transformed",un); Mat<zz_pX> fm=put(F),R=outm(g,n,n); bool inv=ref::cdet(ref::mcoef(F,0))!=0; NONTRIVIAL(c,n>=2&&inv&&ref::mdeg(F)>=1); c.tag(inv?"invertible":"singular-constant-term"); long ok; { Quiet q; ok=reduced_form_gjv(R,fm); } ckm(fm,F,"input afterwards"); CHECK(ok==(inv?1:0),"reduced_form_gjv returned "+std::to_string(ok)); if(!inv) return; PMat r=get(R); CHECK(r.r==n&&r.c==n,"shape"); CHECK(f_reduced(r,VL(n,0)),"not row reduced"); Poly D=ref::mdet(r); CHECK(ref::deg(D)==ref::deg(ref::mdet(F)),"determinant of degree "+std::to_string(ref::deg(D))+" instead of "+std::to_string(ref::deg(ref::mdet(F)))); PMat U=ref::mmul(F,madj(r)); for(auto&p:U.a) CHECK(ref::deg(ref::prem(p,D))<0,"rows do not generate the input"); }
std::vector<Known> KNOWN={};
std::vector<Sub> SUBS={{"exact",t_exact,150000,3000000,30},{"knowing_degree",t_know,60000,1000000,20},{"linsolve",t_lins,20000,400000,20},{"verify",t_ver,40000,800000,30},{"reduce",t_red,60000,1000000,20}};
