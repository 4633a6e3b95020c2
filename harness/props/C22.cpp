// C22: approximant bases
#include "bases.h"
const char* PROP_RULE="(1) every approximant-basis routine (iterative with per-column orders and both strategies, 2x1 variants, mbasis plain/rescomp/resupdate/automatic, pmbasis, Popov variants, general interface) on series matrices of 1..8 rows and 1..8 columns (a share with 9..24 rows and columns), orders 1..200 (uniform or not), every prime size incl. 2, shifts of any sign and amplitude, dense/sparse/low-rank/valuated/duplicated-row/zero series with degree below or above the order: rows are approximants (exact product modulo the order), shifted form by independent definition, degree of the determinant equal to the codimension of the module (rank of the block-Toeplitz map or reference elimination), returned degrees equal to the shifted row degrees; canonical form (hence uniqueness) for the Popov variants; (2) order-1 kernels mbasis1/popov_mbasis1 (up to 21 rows, dense, low-rank and sparse) with the x*rows completed into a basis, same checks; non-trivial: at least 2 rows, order at least 2, F non-zero modulo the order";
std::vector<std::string> ASSUMPTIONS={"orders are strictly positive and the output does not alias the input (documented)","row_wise=false and generic=true of approximant_basis are documented as unsupported and not called"};
std::vector<Known> KNOWN={};
static Mat<zz_pX> fresh(Gen&g,long m){ return outm(g,m,m); }
static void t_app(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); static const char*nm[]={"iterative","iterative-popov","plain","rescomp","resupdate","mbasis","mbasis-popov","pmbasis","pmbasis-popov","interface"}; u64 a=g.draw(10); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); u64 z=g.draw(10); long m,n,D; if(z<7){ m=1+g.size(0,5); n=1+g.size(0,4); D=1+g.size(0,12); } else if(z<9||a<7||a==9){ m=1+(long)g.draw(8); n=1+(long)g.draw(8); D=1+(long)g.draw(16); if(a==0||a==1||a==9) D=1+(long)g.draw(8); } else { m=1+(long)g.draw(4); n=1+(long)g.draw(m+1); D=30+(long)g.draw(g.coin(1,3)?170:60); }
  bool per=(a==0||a==1||a==9); VL o(n,D); if(per&&g.coin(2,3)) for(auto&x:o) x=1+(long)g.draw(D); long d=g.coin(1,4)?D+(long)g.draw(8):1+g.size(0,D); PMat F=gen_series(g,m,n,d); VL s=gen_shift(g,m,g.coin(1,3)?3*D:4); bool ow=g.coin(1,2); c.note("m",m); c.note("n",n); c.note("order",vstr(o)); c.note("deg",ref::mdeg(F)); c.note("shift",vstr(s)); NONTRIVIAL(c,m>=2&&D>=2&&ref::mdeg(colmod(F,o))>=0);
  Mat<zz_pX> fm=put(F),P=fresh(g,m); VecLong sh(s.begin(),s.end()),oo(o.begin(),o.end()); int form=3;
  switch(a){ case 0: appbas_iterative(P,fm,oo,sh,ow); break; case 1: popov_appbas_iterative(P,fm,oo,sh,ow); form=4; break; case 2: mbasis_plain(P,fm,D,sh); break; case 3: mbasis_rescomp(P,fm,D,sh); break; case 4: mbasis_resupdate(P,fm,D,sh); break; case 5: mbasis(P,fm,D,sh); break; case 6: popov_mbasis(P,fm,D,sh); form=4; break; case 7: pmbasis(P,fm,D,sh); break; case 8: popov_pmbasis(P,fm,D,sh); form=4; break;
   default: { Quiet q; VecLong rd; static const PolMatForm fs[]={REDUCED,WEAK_POPOV,ORD_WEAK_POPOV,POPOV}; int k=(int)g.draw(4); form=k+1; bool dflt=g.coin(1,4); if(dflt){ s.assign(m,0); if(k==2&&g.coin(1,2)){ bool uni=true; for(long x:o) uni&=x==o[0]; if(uni) approximant_basis(P,rd,fm,o[0]); else approximant_basis(P,rd,fm,oo); } else approximant_basis(P,rd,fm,oo,VecLong(),fs[k]); } else approximant_basis(P,rd,fm,oo,sh,fs[k]); sh=rd; } }
  VL rd(sh.begin(),sh.end()); ck_app(get(P),F,o,s,form,rd,nm[a]); ckm(fm,F,"input afterwards"); }
static void t_2x1(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool it=g.coin(1,3); long D=1+g.size(0,it?25:g.coin(1,3)?300:70); long d=g.coin(1,4)?D+(long)g.draw(8):1+g.size(0,D); PMat F=gen_series(g,2,1,d); VL s=gen_shift(g,2,g.coin(1,3)?2*D:4); long th=it?0:g.coin(1,2)?32:1+(long)g.draw(20); c.note("alg",it?"iterative":"pmbasis"); c.note("order",D); c.note("deg",ref::mdeg(F)); c.note("shift",vstr(s)); c.note("threshold",th); c.tag(it?"alg:2x1-iterative":"alg:2x1-pmbasis"); NONTRIVIAL(c,D>=2&&ref::deg(F.at(0,0))>=0&&ref::deg(F.at(1,0))>=0);
  zz_pX p[4]; if(g.coin(1,3)) for(auto&x:p) x=put(gen_dense(g,4)); long s0=s[0],s1=s[1]; zz_pX f0=put(F.at(0,0)),f1=put(F.at(1,0)); if(it) appbas_iterative_2x1(p[0],p[1],p[2],p[3],f0,f1,D,s0,s1); else if(th==32&&g.coin(1,2)) pmbasis_2x1(p[0],p[1],p[2],p[3],f0,f1,D,s0,s1); else pmbasis_2x1(p[0],p[1],p[2],p[3],f0,f1,D,s0,s1,th); PMat P(2,2); for(int i=0;i<4;i++) P.a[i]=get(p[i]); ck_app(P,F,VL(1,D),s,3,VL{s0,s1},it?"appbas_iterative_2x1":"pmbasis_2x1"); CHECK(ref::peq(get(f0),F.at(0,0))&&ref::peq(get(f1),F.at(1,0)),"input changed"); }
static void t_one(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool pop=g.coin(1,2); long m=1+g.size(0,10),n=1+g.size(0,10); CMat A; if(g.coin(1,6)){ m=8+(long)g.draw(14); n=std::max(1L,m/2+g.range(-2,2)); A=CMat(m,n); Rng q(g.seed32()); for(auto&x:A.a) x=q.below(4)?0:q()%ref::P; c.tag("big-sparse"); } else A=gen_cmat(g,m,n); VL s=gen_shift(g,m,5); c.note("popov",pop); c.note("m",m); c.note("n",n); c.note("shift",vstr(s)); NONTRIVIAL(c,m>=2&&ref::crank(A)>0&&ref::crank(A)<m); Mat<zz_p> a=put(A),K=outc(g,m,m); VecLong sh(s.begin(),s.end()); VecLong pd=pop?popov_mbasis1(K,a,sh):mbasis1(K,a,sh); CHECK((long)pd.size()==m,"length of the pivot degrees"); CMat k=get(K); CHECK(k.r==m-ref::crank(A),"kernel of dimension "+std::to_string(k.r)+" instead of "+std::to_string(m-ref::crank(A))); if(k.r) CHECK(k.c==m,"width of the kernel"); PMat P(m,m); long r=0; for(long i=0;i<m;i++){ CHECK(pd[i]==0||pd[i]==1,"pivot degree not 0 or 1"); if(pd[i]==1) P.at(i,i)=Poly{0,1%ref::P}; else { CHECK(r<k.r,"more kernel pivots than kernel rows"); for(long j=0;j<m;j++){ P.at(i,j)=Poly{k.at(r,j)}; ref::norm(P.at(i,j)); } r++; } } CHECK(r==k.r,"fewer kernel pivots than kernel rows"); VL rd(m); for(long i=0;i<m;i++) rd[i]=s[i]+pd[i]; ck_app(P,ref::mconst(A),VL(n,1),s,pop?4:3,rd,pop?"popov_mbasis1":"mbasis1"); ckc(get(a),A,"input afterwards"); CHECK(VL(sh.begin(),sh.end())==s,"shift changed"); }
// more rows and columns, where the products inside the recursions go through other algorithms
static void t_med(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); static const char*nm[]={"plain","rescomp","resupdate","mbasis","mbasis-popov","pmbasis","pmbasis-popov","iterative"}; u64 a=g.draw(8); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); long m=9+(long)g.draw(16),n=g.coin(1,4)?m-1:1+(long)g.draw(m); long D=1+(long)g.draw(std::max(2L,std::min(90L,(a>4&&a<7?260:120)/n))); PMat F=g.coin(1,3)?gen_series(g,m,n,D):gen_pmat_dense(g,m,n,D); VL s=gen_shift(g,m,g.coin(1,3)?3*D:4); c.note("m",m); c.note("n",n); c.note("order",D); c.note("shift",vstr(s)); NONTRIVIAL(c,D>=2&&ref::mdeg(F)>=0); Mat<zz_pX> fm=put(F),P=fresh(g,m); VecLong sh(s.begin(),s.end()); int form=3; switch(a){ case 0: mbasis_plain(P,fm,D,sh); break; case 1: mbasis_rescomp(P,fm,D,sh); break; case 2: mbasis_resupdate(P,fm,D,sh); break; case 3: mbasis(P,fm,D,sh); break; case 4: popov_mbasis(P,fm,D,sh); form=4; break; case 5: pmbasis(P,fm,D,sh); break; case 6: popov_pmbasis(P,fm,D,sh); form=4; break; default: appbas_iterative(P,fm,VecLong(n,D),sh,g.coin(1,2)); } ck_app(get(P),F,VL(n,D),s,form,VL(sh.begin(),sh.end()),nm[a]); ckm(fm,F,"input afterwards"); }
std::vector<Sub> SUBS={{"medium",t_med,250,6000,20},{"bases",t_app,80000,1500000,20},{"two_by_one",t_2x1,20000,500000,20},{"order_one",t_one,40000,800000,40}};
