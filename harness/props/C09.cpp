// C09: Toeplitz-like / Hankel-like matrices
#include "st.h"
const char* PROP_RULE="random operator (Toeplitz/Hankel, plus/minus), shape 1..80, displacement rank 0..5, generators dense/sparse/zero; displacement of the expansion recomputed independently must be G*H^t, and products on both sides compared with the expansion; phi operators compared with the definition; non-trivial: non-zero displacement with at least 2 entries";
std::vector<std::string> ASSUMPTIONS={"dimensions at least 1"};
std::vector<Known> KNOWN={};
// operator: U M - M V ; kind 0: T+, 1: T-, 2: H+, 3: H-
static CMat disp(int k,const CMat&A){ long m=A.r,n=A.c; using namespace ref; switch(k){ case 0: return csub(cmul(refZ(m,1),A),cmul(A,refZ(n,0))); case 1: return csub(cmul(refZ(m,0),A),cmul(A,refZ(n,1))); case 2: return csub(cmul(refZ(m,1),A),cmul(A,ctr(refZ(n,0)))); default: return csub(cmul(ctr(refZ(m,0)),A),cmul(A,refZ(n,1))); } }
template<class M> static void run(Gen&g,Case&c,int kind){ Field f=gen_field(g); note_field(c,f); long r,k; long mx=g.coin(1,5)?80:10; r=g.size(1,mx); k=g.coin(1,3)?r:g.size(1,mx); if(LONG){ r=llen(g,100,270); k=g.coin(1,3)?r:llen(g,100,270); } long a=(long)g.draw(LONG?3:6); c.note("rows",r); c.note("cols",k); c.note("rank",a); CMat G=gen_cmat(g,r,a),H=gen_cmat(g,k,a); CMat GH(r,k); if(a) GH=ref::cmul(G,ref::ctr(H));
  M S(put(G),put(H)); CHECK(S.NumGens()==a,"NumGens wrong"); CMat D; { Mat<zz_p> X; S.to_dense(X); D=get(X); CHECK(D.r==r&&D.c==k,"to_dense: wrong shape"); }
  ck_eq(disp(kind,D),GH,"displacement of the expansion"); st_all(g,c,S,D); }
static void t_tp(Gen&g,Case&c){ run<toeplitz_like_plus_lzz_p>(g,c,0); }
static void t_tm(Gen&g,Case&c){ run<toeplitz_like_minus_lzz_p>(g,c,1); }
static void t_hp(Gen&g,Case&c){ run<hankel_like_plus_lzz_p>(g,c,2); }
static void t_hm(Gen&g,Case&c){ run<hankel_like_minus_lzz_p>(g,c,3); }
static void t_phi(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=g.size(1,40),k=g.size(1,40); int kind=(int)g.draw(4); c.note("rows",r); c.note("cols",k); c.note("kind",kind); CMat A=gen_cmat(g,r,k); NONTRIVIAL(c,r*k>1); Mat<zz_p> X=put(A),R; bool al=g.coin(1,3); Mat<zz_p>&O=al?X:R; switch(kind){ case 0: toeplitz_lzz_p_phi_plus(O,X); break; case 1: toeplitz_lzz_p_phi_minus(O,X); break; case 2: hankel_lzz_p_phi_plus(O,X); break; default: hankel_lzz_p_phi_minus(O,X); } ck_eq(get(O),disp(kind,A),"phi"); Mat<zz_p> Y=put(A); ck_eq(get(kind==0?toeplitz_lzz_p_phi_plus(Y):kind==1?toeplitz_lzz_p_phi_minus(Y):kind==2?hankel_lzz_p_phi_plus(Y):hankel_lzz_p_phi_minus(Y)),disp(kind,A),"phi (returned)"); CHECK(get(Y)==A,"phi changed its input"); }
static void t_long(Gen&g,Case&c){ LongMode lm; switch(g.draw(4)){ case 0: t_tp(g,c); break; case 1: t_tm(g,c); break; case 2: t_hp(g,c); break; default: t_hm(g,c); } }
std::vector<Sub> SUBS={{"toeplitz-plus",t_tp,12000,250000,100},{"toeplitz-minus",t_tm,12000,250000,100},{"hankel-plus",t_hp,12000,250000,100},{"hankel-minus",t_hm,12000,250000,100},{"phi",t_phi,12000,250000,100},{"long",t_long,30,2000,20}};
