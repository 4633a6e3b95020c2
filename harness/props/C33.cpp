// C33: generators of random polynomial vectors, matrices and bivariate polynomials
#include "pm.h"
#include "lzz_pXY.h"
#include <set>
const char* PROP_RULE="shapes 0..8 by 0..8, degree bounds 0..40 given globally, per row, per column or per entry (zero bounds included), outputs fresh, dirty of the right or of another shape; the requested shape, every coefficient below its bound, entries with bound 0 equal to zero, the same output again after the same NTL seed, and, for moduli above 2^45, full use of the bound: all coefficients below the bounds non-zero and pairwise different, and different from those of a second call; non-trivial: at least 4 coefficients below the bounds";
std::vector<std::string> ASSUMPTIONS={"full use of the bound is a statement with probability: at most 4000 coefficients per case and a modulus above 2^45, so below 2^-21 per case that a correct generator fails it"};
std::vector<Known> KNOWN={};
static long clampd(Gen&g){ switch(g.draw(5)){ case 0: return 0; case 1: return 1; case 2: return (long)g.draw(41); default: return (long)g.draw(8); } }
static void t_random(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); u64 kind=g.draw(10); static const char*nm[]={"vector","vector(returned)","matrix","matrix(returned)","row degrees","column degrees","degree matrix","degree matrix(returned)","list of matrices","bivariate"}; c.note("kind",nm[kind]); c.tag(nm[kind]);
  long r=g.size(0,8),k=g.size(0,8),d=clampd(g); if(kind<2) k=1; c.note("r",r); c.note("c",k); CMat D(r,k); VecLong rd(r),cd(k); for(auto&x:rd) x=clampd(g); for(auto&x:cd) x=clampd(g); Mat<long> dm; dm.SetDims(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) D.at(i,j)=kind==4?rd[i]:kind==5?cd[j]:kind==6||kind==7?clampd(g):d; for(long i=0;i<r;i++) for(long j=0;j<k;j++) dm[i][j]=(long)D.at(i,j); if(kind!=4&&kind!=5&&kind!=6&&kind!=7) c.note("d",d);
  u64 seed=g.seed32(); int bv=(int)g.draw(2); bool dirt=g.coin(1,2); Rng q(g.seed32());
  auto call=[&](bool sow)->PMat{ if(sow) SetSeed(ZZ((long)seed)); Mat<zz_pX> m; Vec<zz_pX> v; Vec<Mat<zz_p>> l; if(dirt){ long a=q.below(2)?r:1+(long)q.below(4),b=q.below(2)?k:1+(long)q.below(4); PMat X(a,b); for(auto&p:X.a){ p.assign(1+q.below(50),0); for(auto&x:p) x=1%ref::P; } m=put(X); v=putpv(X.a); l.SetLength(1+(long)q.below(6)); for(long i=0;i<l.length();i++){ l[i].SetDims(a,b); for(long u=0;u<a;u++) for(long w=0;w<b;w++) l[i][u][w]=1; } }
    PMat R(r,k); switch(kind){ case 0: random(v,r,d); break; case 1: v=random_vec_zz_pX(r,d); break; case 2: random(m,r,k,d); break; case 3: m=random_mat_zz_pX(r,k,d); break; case 4: random_mat_zz_pX_rdeg(m,r,k,rd); break; case 5: random_mat_zz_pX_cdeg(m,r,k,cd); break; case 6: random(m,dm); break; case 7: m=random_mat_zz_pX(dm); break; case 8: if(bv) random(l,r,k,d); else l=random_vec_mat_zz_p(r,k,d); break; default:; }
    if(kind<2){ CHECK(v.length()==r,"length of the vector"); R.a=get(v); } else if(kind<8){ R=get(m); CHECK(R.r==r&&R.c==k,"shape of the matrix"); } else if(kind==8){ CHECK(l.length()==d,"number of coefficient matrices"); for(long e=0;e<d;e++){ CMat C=get(l[e]); CHECK(C.r==r&&C.c==k,"shape of a coefficient matrix"); for(long i=0;i<r*k;i++){ R.a[i].resize(d,0); R.a[i][e]=C.a[i]; } } for(auto&p:R.a) ref::norm(p); }
    else { zz_pXY F; if(dirt) F=random_zz_pXY(3,4); if(sow) SetSeed(ZZ((long)seed)); if(bv) random_zz_pXY(F,d,r); else F=random_zz_pXY(d,r); CHECK((long)F.rep.length()<=r,"degree in Y not below its bound"); CHECK(F.degY()<r||F.degY()<0,"degree in Y not below its bound"); CHECK(F.degX()<d||F.degX()<0,"degree in X not below its bound"); R=PMat(r,1); for(long i=0;i<F.rep.length();i++) R.at(i,0)=get(F.rep[i]); if(F.rep.length()) CHECK(!IsZero(F.rep[F.rep.length()-1]),"bivariate polynomial not normalized"); }
    return R; };
  if(kind==9){ k=1; D=CMat(r,1); for(auto&x:D.a) x=d; } PMat A=call(true),B=call(false),C=call(true); long tot=0; for(auto x:D.a) tot+=x; NONTRIVIAL(c,tot>=4); ckm(C,A,"output after the same seed");
  for(const PMat*M:{&A,&B}) for(long i=0;i<r;i++) for(long j=0;j<k;j++) CHECK((long)M->at(i,j).size()<=(long)D.at(i,j),"degree not below its bound"+at2(i,j));
  if(ref::P>(1ULL<<45)){ std::set<u64> s; for(const PMat*M:{&A,&B}) for(long i=0;i<r;i++) for(long j=0;j<k;j++){ CHECK((long)M->at(i,j).size()==(long)D.at(i,j),"the bound on the degree is not used"+at2(i,j)); for(u64 x:M->at(i,j)){ CHECK(x!=0,"zero coefficient below the bound"+at2(i,j)); CHECK(s.insert(x).second,"repeated coefficient"+at2(i,j)); } } c.tag("full-bound"); } }
std::vector<Sub> SUBS={{"random",t_random,20000,400000,200}};
