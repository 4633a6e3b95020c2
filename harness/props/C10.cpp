// C10: Cauchy / Cauchy-like matrices on geometric progressions
#include "st.h"
const char* PROP_RULE="random large-enough modulus, points u1*rho^i, v1*rho^j with all differences non-zero, shape 1..60 (plus 195..240 for the divide-and-conquer path); Cauchy-like matrices from random generators or from the displacement of an arbitrary dense matrix (low rank, zero leading minors, zero, identity); invert_leading_principal_minor_grp and solve_grp compared with elimination without pivoting on the dense matrix; non-trivial: non-zero matrix with at least 2 entries";
std::vector<std::string> ASSUMPTIONS={"all u1*rho^i - v1*rho^j non-zero and rho of order at least max(rows,cols)","on a matrix without generic rank profile the library may report failure, or succeed with a correct answer (the block algorithm only looks at block minors)","in the divide-and-conquer path (at least 200 rows and columns) the generic-rank-profile test of the library is a random projection: moduli above 2^30 only"};
std::vector<Known> KNOWN={};
struct Pts{ u64 u,v,rho; };
static Pts gen_pts(Gen&g,Case&c,long m,long n){ Rng q(g.seed32()); long mx=m+n; for(int t=0;t<400;t++){ u64 rho=1+q()%(ref::P-1),u=1+q()%(ref::P-1),v=1+q()%(ref::P-1); u64 mode=q.below(3); if(mode==0){ u=1; v=ref::pw(rho,m); } bool ok=rho!=1; u64 x=1; for(long i=1;i<=std::max(m,n)&&ok;i++){ x=ref::mul(x,rho); if(x==1) ok=false; } if(!ok) continue; u64 ir=ref::inv(rho); x=ref::pw(ir,m); x=ref::mul(x,v); for(long i=0;i<=mx&&ok;i++){ if(x==u) ok=false; x=ref::mul(x,rho); } if(!ok) continue; Pts p{u,v,rho}; c.note("u1",u); c.note("v1",v); c.note("rho",rho); return p; } throw Discard(); }
static CMat cauchy(const Pts&p,long m,long n){ CMat D(m,n); u64 a=p.u; for(long i=0;i<m;i++){ u64 b=p.v; for(long j=0;j<n;j++){ D.at(i,j)=ref::inv(ref::sub(a,b)); b=ref::mul(b,p.rho);} a=ref::mul(a,p.rho);} return D; }
static Field bigfield(Gen&g,long mx){ return gen_field(g,F_ALL&~F_TINY,std::max<u64>(400,(u64)mx*12)); }
static void t_cauchy(Gen&g,Case&c){ long m,n; { long mx=g.coin(1,5)?90:9; m=g.size(1,mx); n=g.coin(1,3)?m:g.size(1,mx); } Field f=bigfield(g,m+n); note_field(c,f); c.note("rows",m); c.note("cols",n); Pts p=gen_pts(g,c,m,n); CMat D=cauchy(p,m,n); cauchy_geometric_lzz_p M(Z(p.u),Z(p.v),Z(p.rho),m,n); st_all(g,c,M,D);
  CMat S=D; u64 x=1; for(long i=0;i<m;i++){ for(long j=0;j<n;j++) S.at(i,j)=ref::mul(D.at(i,j),x); x=ref::mul(x,p.rho);} // without the diagonal
  switch(g.draw(5)){ case 1: { c.note("op","rsimple"); ref::Vec v=gen_list(g,n); Vec<zz_p> V=putv(v),W; bool al=g.coin(1,3); Vec<zz_p>&O=al?V:W; if(al||g.coin(1,2)) M.mul_right_simple(O,V); else O=M.mul_right_simple(V); ck_eq(get(O),ref::cmulv(S,v),"mul_right_simple"); break; }
   case 2: { c.note("op","lsimple"); ref::Vec v=gen_list(g,m); Vec<zz_p> V=putv(v),W; bool al=g.coin(1,3); Vec<zz_p>&O=al?V:W; if(al||g.coin(1,2)) M.mul_left_simple(O,V); else O=M.mul_left_simple(V); ck_eq(get(O),ref::cvmul(v,S),"mul_left_simple"); break; }
   case 3: { c.note("op","rsimplem"); CMat v=gen_cmat(g,n,1+g.draw(4)); Mat<zz_p> V=put(v),W; bool al=g.coin(1,3); Mat<zz_p>&O=al?V:W; if(al||g.coin(1,2)) M.mul_right_simple(O,V); else O=M.mul_right_simple(V); ck_eq(get(O),ref::cmul(S,v),"mul_right_simple(matrix)"); break; }
   case 4: { c.note("op","lsimplem"); CMat v=gen_cmat(g,1+g.draw(4),m); Mat<zz_p> V=put(v),W; bool al=g.coin(1,3); Mat<zz_p>&O=al?V:W; if(al||g.coin(1,2)) M.mul_left_simple(O,V); else O=M.mul_left_simple(V); ck_eq(get(O),ref::cmul(v,S),"mul_left_simple(matrix)"); break; } default: ; } }
// a Cauchy-like matrix: generators + dense expansion
struct CL{ Pts p; CMat G,H,D; };
static CL gen_cl(Gen&g,Case&c,long m,long n,bool forsolve){ CL r; r.p=gen_pts(g,c,m,n); CMat C=cauchy(r.p,m,n); u64 st=g.draw(forsolve?6:3); long mn=std::min(m,n);
  auto D1=[&](CMat A){ u64 x=r.p.u; for(long i=0;i<A.r;i++){ for(long j=0;j<A.c;j++) A.at(i,j)=ref::mul(A.at(i,j),x); x=ref::mul(x,r.p.rho);} return A; };
  auto lowrank=[&](const CMat&A,const CMat&B){ // M=A*B : G=[D1 A,-A], H=[B^t, D2 B^t]
    long k=A.c; CMat DA=D1(A); r.G=CMat(m,2*k); r.H=CMat(n,2*k); u64 x=r.p.v; for(long i=0;i<m;i++) for(long j=0;j<k;j++){ r.G.at(i,j)=DA.at(i,j); r.G.at(i,k+j)=ref::neg(A.at(i,j)); } for(long i=0;i<n;i++){ for(long j=0;j<k;j++){ r.H.at(i,j)=B.at(j,i); r.H.at(i,k+j)=ref::mul(B.at(j,i),x);} x=ref::mul(x,r.p.rho);} };
  if(st<=2||m*n>2500){ long a=g.coin(1,5)?(long)g.draw(20):1+(long)g.draw(6); r.G=gen_cmat(g,m,a); r.H=gen_cmat(g,n,a);
    if(g.coin(1,3)&&a){ long rk=(long)g.draw(mn+1); for(long i=rk;i<m;i++) for(long j=0;j<a;j++) r.G.at(i,j)=0; for(long i=rk;i<n;i++) for(long j=0;j<a;j++) r.H.at(i,j)=0; if(g.coin(1,3)&&rk<mn){ long e=rk+(long)g.draw(mn-rk); Rng q(g.seed32()); for(long j=0;j<a;j++){ r.G.at(e,j)=q()%ref::P; r.H.at(e,j)=q()%ref::P; } } } c.note("style","gens"); }
  else if(st==3){ long k=1+(long)g.draw(4); CMat A=gen_cmat(g,m,k),B=gen_cmat(g,k,n); lowrank(A,B); c.note("style","lowrank"); }
  else { // arbitrary small dense matrix: G = displacement, H = I
    CMat M=gen_cmat(g,m,n); if(st==5&&mn>=1){ long z=(long)g.draw(mn); M.at(z,z)=0; if(g.coin(1,2)) for(long i=0;i<=z;i++){ M.at(i,z)=0; if(g.coin(1,2)) M.at(z,i)=0; } } CMat L=D1(M); u64 x=r.p.v; for(long j=0;j<n;j++){ for(long i=0;i<m;i++) L.at(i,j)=ref::sub(L.at(i,j),ref::mul(M.at(i,j),x)); x=ref::mul(x,r.p.rho);} r.G=L; r.H=ref::cident(n); c.note("style","arbitrary"); }
  c.note("alpha",r.G.c); r.D=CMat(m,n); if(r.G.c) r.D=ref::cmul(r.G,ref::ctr(r.H)); for(size_t i=0;i<r.D.a.size();i++) r.D.a[i]=ref::mul(r.D.a[i],C.a[i]); return r; }
static void t_like(Gen&g,Case&c){ long mx=g.coin(1,5)?60:8; long m=g.size(1,mx),n=g.coin(1,3)?m:g.size(1,mx); Field f=bigfield(g,m+n); note_field(c,f); c.note("rows",m); c.note("cols",n); CL r=gen_cl(g,c,m,n,true); cauchy_like_geometric_lzz_p M(put(r.G),put(r.H),Z(r.p.u),Z(r.p.v),Z(r.p.rho)); CHECK(M.NumGens()==r.G.c,"NumGens wrong"); st_all(g,c,M,r.D);
  if(g.coin(1,3)){ c.note("op","direct"); CMat v=gen_cmat(g,n,1+g.draw(4)); Mat<zz_p> V=put(v),W; bool al=g.coin(1,3); Mat<zz_p>&O=al?V:W; if(g.coin(1,2)&&!al) M.mul_right_sigma_UL(O,V); else if(al||g.coin(1,2)) M.mul_right_direct(O,V); else O=M.mul_right_direct(V); ck_eq(get(O),ref::cmul(r.D,v),"mul_right_direct/sigma_UL"); } }
// elimination without pivoting: generic rank profile? rank
static bool grp(CMat A,long&rk){ long N=std::min(A.r,A.c); for(rk=0;rk<N;rk++){ if(A.at(rk,rk)==0) break; u64 iv=ref::inv(A.at(rk,rk)); for(long i=rk+1;i<A.r;i++) if(A.at(i,rk)){ u64 f=ref::mul(A.at(i,rk),iv); for(long j=rk;j<A.c;j++) A.at(i,j)=ref::sub(A.at(i,j),ref::mul(f,A.at(rk,j))); } } for(long i=rk;i<A.r;i++) for(long j=rk;j<A.c;j++) if(A.at(i,j)) return false; return true; }
static void thr(Gen&g,Case&c,long&t,long&ta){ t=-1; ta=-1; if(g.coin(1,2)){ t=(long)g.pick({50L,10L,2L,10000L}); ta=(long)g.pick({15L,8L,1L,2L,1000L}); } c.note("thr",t); c.note("thra",ta); }
static void inv_solve(Gen&g,Case&c,const CL&r,long m,long n){ long rk; bool ok=grp(r.D,rk); c.note("grp",ok); c.note("rank",rk); c.tag(ok?(rk==std::min(m,n)?"full":"deficient"):"not-grp"); NONTRIVIAL(c,m*n>1); cauchy_like_geometric_lzz_p M(put(r.G),put(r.H),Z(r.p.u),Z(r.p.v),Z(r.p.rho)); long t,ta; long k=1+(long)g.draw(2);
  for(long it=0;it<k;it++){ thr(g,c,t,ta); if(g.coin(1,2)){ c.note("op","inv"); cauchy_like_geometric_lzz_p I; long q; if(g.coin(1,4)){ I=M; q=I.invert_leading_principal_minor_grp(I,t,ta); } else q=M.invert_leading_principal_minor_grp(I,t,ta); CHECK(q==0||q==1,"invert_leading_principal_minor_grp: unexpected return value"); if(ok) CHECK(q==1,"invert_leading_principal_minor_grp: failed on a matrix which has generic rank profile");
     if(q==1){ if(!ok) rk=ref::crank(r.D); CHECK(I.NumRows()==rk&&I.NumCols()==rk,"inverse has size "+std::to_string(I.NumRows())+"x"+std::to_string(I.NumCols())+", rank is "+std::to_string(rk)); if(rk){ CMat L(rk,rk); for(long i=0;i<rk;i++) for(long j=0;j<rk;j++) L.at(i,j)=r.D.at(i,j); Mat<zz_p> X; I.to_dense(X); if(rk<=70) CHECK(ref::cmul(get(X),L)==ref::cident(rk),"returned inverse is not the inverse of the leading minor"); else { Rng q(g.seed32()); ref::Vec v(rk); for(auto&x:v) x=q()%ref::P; CHECK(ref::cmulv(get(X),ref::cmulv(L,v))==v,"returned inverse is not the inverse of the leading minor"); } } } }
   else { bool cons=g.coin(1,2); ref::Vec b; if(cons) b=ref::cmulv(r.D,gen_list(g,n)); else b=gen_list(g,m); c.note("solve",cons); Vec<zz_p> x; if(g.coin(1,2)) x=putv(gen_list(g,1+g.draw(4))); long q=M.solve_grp(x,putv(b),t,ta); CHECK(q==0||q==1,"solve_grp: unexpected return value"); if(ok) CHECK(q==1,"solve_grp: failed on a matrix which has generic rank profile");
     if(q==1){ if(cons||x.length()) { ref::Vec X=get(x); CHECK((long)X.size()==n,"solve_grp: no solution returned for a consistent system"); CHECK(ref::cmulv(r.D,X)==b,"solve_grp: not a solution"); } else { CMat E(m,n+1); for(long i=0;i<m;i++){ for(long j=0;j<n;j++) E.at(i,j)=r.D.at(i,j); E.at(i,n)=b[i]; } CHECK(ref::crank(E)>ref::crank(r.D),"solve_grp: reports no solution but one exists"); } } } } }
static void t_inv(Gen&g,Case&c){ long mx=g.coin(1,5)?45:8; long m=g.size(1,mx),n=g.coin(1,3)?m:g.size(1,mx); Field f=bigfield(g,m+n); note_field(c,f); c.note("rows",m); c.note("cols",n); CL r=gen_cl(g,c,m,n,true); inv_solve(g,c,r,m,n); }
static void t_big(Gen&g,Case&c){ long m=195+(long)g.draw(46),n=g.coin(1,2)?m:195+(long)g.draw(46); Field f=gen_field(g,F_BIG|F_FFT); note_field(c,f); c.note("rows",m); c.note("cols",n); CL r=gen_cl(g,c,m,n,false); inv_solve(g,c,r,m,n); }
std::vector<Sub> SUBS={{"cauchy",t_cauchy,12000,200000,100},{"cauchy-like",t_like,12000,200000,100},{"invert-solve",t_inv,30000,600000,100},{"divide-and-conquer",t_big,120,3000,5}};
