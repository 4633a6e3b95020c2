// C23: approximant bases of generic input, matrix Pade approximants
#include "bases.h"
const char* PROP_RULE="generic (random) series matrices, the genericity condition being tested by reference block elimination for small sizes and holding with probability above 1-2^-30 for the large ones (modulus above 2^50): (1) the four 2n x n routines, n 1..6, every order 2..140 incl. all residues mod 4 and around the recursion threshold, moduli from about 100 up: approximants by exact product, ordered weak Popov, generating (codimension), block structure with identity leading terms as documented; (2) matrix Pade routines (iterative with one or two denominators, recursive, divide and conquer): den = x^dd*I + D, den2 of degree floor(order/2), numerators modulo the order of the announced degree and structure; (3) Popov basis for generic m x n input: canonical form; (4) one-column prototypes at orders that are multiples of the number of rows; non-trivial: n >= 2 or order >= 8";
std::vector<std::string> ASSUMPTIONS={"input is generic in the documented sense and order >= 2 (documented)","one-column routines: order a multiple of the number of rows at every recursion level (prototype specific to that case)"};
std::vector<Known> KNOWN={};
static PMat dense(Rng&q,long r,long c,long d){ PMat A(r,c); for(auto&p:A.a){ p.resize(d); for(auto&x:p) x=q()%ref::P; ref::norm(p); } return A; }
// alternating block condition: the block used as pivot at every step is invertible
static bool generic2n(const PMat&F,long n,long order){ std::vector<CMat> T(order,CMat(n,n)),B=T; for(long k=0;k<order;k++) for(long i=0;i<n;i++) for(long j=0;j<n;j++){ T[k].at(i,j)=ref::coef(F.at(i,j),k); B[k].at(i,j)=ref::coef(F.at(n+i,j),k); } for(long k=0;k<order;k++){ auto&pv=k%2?B:T; auto&ot=k%2?T:B; CMat I; if(!ref::cinv(I,pv[k])) return false; CMat K=ref::cmul(ot[k],I); for(long t=k;t<order;t++) ot[t]=ref::csub(ot[t],ref::cmul(K,pv[t])); for(long t=order-1;t>0;t--) pv[t]=pv[t-1]; pv[0]=CMat(n,n); } return true; }
// P = x^d*I + Q with deg Q<d
static void lead(const PMat&P,long d,const std::string&w){ for(long i=0;i<P.r;i++) for(long j=0;j<P.c;j++){ if(i==j) CHECK(ref::deg(P.at(i,j))==d&&ref::coef(P.at(i,j),d)==1%ref::P,w+": diagonal entry not monic of degree "+std::to_string(d)); else CHECK(ref::deg(P.at(i,j))<d,w+": off-diagonal degree not below "+std::to_string(d)); } }
static void atmost(const PMat&P,long d,const std::string&w){ CHECK(ref::mdeg(P)<=d,w+": degree above "+std::to_string(d)); }
static void novan(const PMat&P,const std::string&w){ for(auto&p:P.a) CHECK(ref::coef(p,0)==0,w+": constant term not zero"); }
static long pick_sizes(Gen&g,Case&c,Field&f,long&n,long&order){ u64 z=g.draw(8); if(z<5){ f=gen_field(g,F_ALL&~F_TINY,101); n=1+(long)g.draw(3); order=2+g.size(0,20); } else { f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<50); n=1+(long)g.draw(g.coin(1,3)?6:3); order=28+(long)g.draw(g.coin(1,2)?16:112); if(n>3) order=28+(long)g.draw(40); } note_field(c,f); c.note("n",n); c.note("order",order); NONTRIVIAL(c,n>=2||order>=8); return z<5; }
static void t_2n(Gen&g,Case&c){ Field f; long n,o; bool sm=pick_sizes(g,c,f,n,o); Rng q(g.seed32()); PMat F=dense(q,2*n,n,o+(g.coin(1,4)?5:0)); if(sm&&!generic2n(F,n,o)) throw Discard(); u64 a=g.draw(4); static const char*nm[]={"rescomp","resupdate","pmbasis","top-rows"}; c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); Mat<zz_pX> fm=put(F),P=outm(g,2*n,2*n); switch(a){ case 0: mbasis_generic_2n_n_rescomp(P,fm,o); break; case 1: mbasis_generic_2n_n_resupdate(P,fm,o); break; case 2: pmbasis_generic_2n_n(P,fm,o); break; default: pmbasis_generic_2n_n_top_rows(P,fm,o); } PMat A=get(P); ckm(fm,F,"input afterwards"); std::string w=nm[a]; long d=o/2; CHECK(A.c==2*n&&A.r==(a==3?n:2*n),w+": shape"); if(a<3) ck_app(A,F,VL(n,o),VL(2*n,0),3,rrdeg(A,VL(2*n,0)),w,n*o); else { PMat R=ref::mtrunc(ref::mmul(A,ref::mtrunc(F,o)),o); CHECK(ref::mdeg(R)<0,w+": rows are not approximants"); }
  PMat A0=ref::msub_block(A,0,0,n,n),A1=ref::msub_block(A,0,n,n,n); if(o%2==0){ lead(A0,d,w+" top left"); atmost(A1,d-1,w+" top right"); } else { lead(A0,d+1,w+" top left"); novan(A0,w+" top left"); atmost(A1,d,w+" top right"); novan(A1,w+" top right"); } if(a<3){ PMat B0=ref::msub_block(A,n,0,n,n),B1=ref::msub_block(A,n,n,n,n); lead(B1,d,w+" bottom right"); atmost(B0,d,w+" bottom left"); if(o%2==0){ novan(B0,w+" bottom left"); novan(B1,w+" bottom right"); } } }
static void t_pade(Gen&g,Case&c){ Field f; long n,o; bool sm=pick_sizes(g,c,f,n,o); Rng q(g.seed32()); PMat F=dense(q,n,n,o); PMat E(2*n,n); for(long i=0;i<n;i++){ for(long j=0;j<n;j++) E.at(i,j)=F.at(i,j); E.at(n+i,i)=Poly{ref::P-1}; } if(sm&&!generic2n(E,n,o)) throw Discard(); u64 a=g.draw(4); static const char*nm[]={"pade-iterative","pade-iterative-2","pade-recursion","pade"}; c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); Mat<zz_pX> fm=put(F),D=outm(g,n,n),D2=outm(g,n,n); switch(a){ case 0: matrix_pade_generic_iterative(D,fm,o); break; case 1: matrix_pade_generic_iterative(D,D2,fm,o); break; case 2: matrix_pade_generic_recursion(D,fm,o); break; default: matrix_pade_generic(D,fm,o); } PMat A=get(D),B; ckm(fm,F,"input afterwards"); std::string w=nm[a]; if(a==1) B=get(D2); if(a==2){ CHECK(A.r==2*n&&A.c==n,w+": shape"); B=ref::msub_block(A,n,0,n,n); A=ref::msub_block(A,0,0,n,n); } CHECK(A.r==n&&A.c==n,w+": shape"); long dd=(o+1)/2,d=o/2; lead(A,dd,w+" denominator"); PMat N=ref::mtrunc(ref::mmul(A,F),o); atmost(N,dd-1,w+" numerator"); if(o%2){ novan(A,w+" denominator"); novan(N,w+" numerator"); } if(a==1||a==2){ CHECK(B.r==n&&B.c==n,w+": shape of the second denominator"); atmost(B,d,w+" second denominator"); PMat M=ref::mtrunc(ref::mmul(B,F),o); lead(M,d,w+" second numerator"); if(o%2==0){ novan(B,w+" second denominator"); novan(M,w+" second numerator"); } } }
static void t_popov(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<50); note_field(c,f); bool lo=g.coin(1,2); long m=2+(long)g.draw(6),n=1+(long)g.draw(g.coin(1,8)?m+2:m-1),o=1+g.size(0,lo?30:g.coin(1,3)?70:30); Rng q(g.seed32()); PMat F=dense(q,m,n,o); c.note("m",m); c.note("n",n); c.note("order",o); c.note("alg",lo?"rescomp":"pmbasis"); c.tag(lo?"alg:popov-rescomp":"alg:popov-pmbasis"); NONTRIVIAL(c,m>=3&&o>=2); Mat<zz_pX> fm=put(F),P=outm(g,m,m); if(lo) popov_mbasis_rescomp_generic(P,fm,o); else popov_pmbasis_generic(P,fm,o); PMat A=get(P); ck_app(A,F,VL(n,o),VL(m,0),4,rrdeg(A,VL(m,0)),"popov generic",std::min(m,n)*o); ckm(fm,F,"input afterwards"); }
static void t_one(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<50); note_field(c,f); bool it=g.coin(1,2); long m=1+(long)g.draw(5),t=1+(long)g.draw(16),o=m*t; if(!it&&g.coin(1,2)){ t=9+(long)g.draw(8); o=m*t*(2<<g.draw(2)); } Rng q(g.seed32()); PMat F=dense(q,m,1,o); for(auto&p:F.a) if((long)p.size()<o){ p.resize(o); p[o-1]=1; } c.note("m",m); c.note("order",o); c.note("alg",it?"onecolumn-mbasis":"onecolumn-pmbasis"); c.tag(it?"alg:onecolumn-mbasis":"alg:onecolumn-pmbasis"); NONTRIVIAL(c,m>=2&&o>=4); Mat<zz_pX> fm=put(F),P; VecLong sh(m,0); VecLong r=it?mbasis_generic_onecolumn(P,fm,o,sh):pmbasis_generic_onecolumn(P,fm,o,sh); PMat A=get(P); ck_app(A,F,VL(1,o),VL(m,0),4,VL(r.begin(),r.end()),"onecolumn",o); ckm(fm,F,"input afterwards"); }
std::vector<Sub> SUBS={{"two_n_by_n",t_2n,15000,300000,20},{"pade",t_pade,15000,300000,20},{"popov",t_popov,12000,200000,20},{"one_column",t_one,6000,100000,20}};
