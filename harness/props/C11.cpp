// C11: mosaic Toeplitz / Hankel matrices
#include "st.h"
const char* PROP_RULE="random block layout (1..4 x 1..4 blocks, block sides 1..12, sometimes up to 60), block data dense/sparse/zero/shared between blocks; expansion, entry access, block rows/columns, generators, products on both sides compared with the independently built dense matrix; solve and inv on square/rectangular, singular and consistent/inconsistent systems; non-trivial: at least two blocks or a non-zero matrix of at least 2 entries";
std::vector<std::string> ASSUMPTIONS={"blocks have at least one row and one column","solve and inv may return 0 (preconditioning failed, field too small, or singular); for moduli above 2^40 and sizes up to 40 solve must succeed, and inv must succeed exactly on invertible matrices (failure probability below 2^-25)"};
std::vector<Known> KNOWN={};
template<class B> struct Tr; template<> struct Tr<hankel_lzz_p>{ typedef mosaic_hankel_lzz_p M; typedef hankel_like_minus_lzz_p I; static const bool h=true; }; template<> struct Tr<toeplitz_lzz_p>{ typedef mosaic_toeplitz_lzz_p M; typedef toeplitz_like_minus_lzz_p I; static const bool h=false; };
template<class B> static typename Tr<B>::M gen_mos(Gen&g,Case&c,CMat&D,std::vector<long>&rs,std::vector<long>&cs,int square,long big){ long a=1+(long)g.draw(4),b=1+(long)g.draw(4); rs.clear(); cs.clear(); long n=0,m=0; std::string d; for(long i=0;i<a;i++){ rs.push_back(big==70?200/a+1+(long)g.draw(12):g.size(1,big)); } for(long j=0;j<b;j++) cs.push_back(big==70?200/b+1+(long)g.draw(12):g.size(1,big)); for(long x:rs) n+=x; for(long x:cs) m+=x; if(square){ if(n<m) rs[a-1]+=m-n; else cs[b-1]+=n-m; n=m=std::max(n,m); }
  for(long x:rs) d+=std::to_string(x)+","; d+="x"; for(long x:cs) d+=std::to_string(x)+","; c.note("layout",d); D=CMat(n,m); Vec<Vec<B>> V; V.SetLength(a); long i0=0; ref::Vec shared=gen_list(g,n+m); bool sh=g.coin(1,5); for(long i=0;i<a;i++){ V[i].SetLength(b); long j0=0; for(long j=0;j<b;j++){ ref::Vec w; if(sh){ w=ref::Vec(shared.begin(),shared.begin()+rs[i]+cs[j]-1); } else w=gen_list(g,rs[i]+cs[j]-1); V[i][j]=B(putv(w),rs[i],cs[j]); for(long r=0;r<rs[i];r++) for(long s=0;s<cs[j];s++) D.at(i0+r,j0+s)=Tr<B>::h?w[rs[i]+cs[j]-2-r-s]:w[cs[j]-1+r-s]; j0+=cs[j]; } i0+=rs[i]; } return typename Tr<B>::M(V); }
template<class B> static void t_ops(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); CMat D; std::vector<long> rs,cs; auto M=gen_mos<B>(g,c,D,rs,cs,g.coin(1,4),g.coin(1,6)?60:12); long n=D.r,m=D.c; st_all(g,c,M,D);
  CHECK(M.NumBlockRows()==(long)rs.size()&&M.NumBlockCols()==(long)cs.size(),"block counts wrong"); for(size_t i=0;i<rs.size();i++) CHECK(M.NumRows_of_block(i)==rs[i],"NumRows_of_block wrong"); for(size_t i=0;i<cs.size();i++) CHECK(M.NumCols_of_block(i)==cs[i],"NumCols_of_block wrong");
  long x=(long)g.draw(n),y=(long)g.draw(m); CHECK(get(M(x,y))==D.at(x,y),"entry access wrong");
  long bi=(long)g.draw(rs.size()),bj=(long)g.draw(cs.size()),r0=0,c0=0; for(long i=0;i<bi;i++) r0+=rs[i]; for(long j=0;j<bj;j++) c0+=cs[j]; ref::Vec w; Vec<zz_p> R; bool rv=g.coin(1,3); if(g.coin(1,3)) R=putv(gen_list(g,1+g.draw(9)));
  switch(g.draw(5)){ case 0: if(rv) R=M.first_row_of_block(bi); else M.first_row_of_block(R,bi); for(long j=0;j<m;j++) w.push_back(D.at(r0,j)); ck_eq(get(R),w,"first_row_of_block"); break; case 1: if(rv) R=M.last_row_of_block(bi); else M.last_row_of_block(R,bi); for(long j=0;j<m;j++) w.push_back(D.at(r0+rs[bi]-1,j)); ck_eq(get(R),w,"last_row_of_block"); break; case 2: if(rv) R=M.first_column_of_block(bj); else M.first_column_of_block(R,bj); for(long i=0;i<n;i++) w.push_back(D.at(i,c0)); ck_eq(get(R),w,"first_column_of_block"); break; case 3: if(rv) R=M.last_column_of_block(bj); else M.last_column_of_block(R,bj); for(long i=0;i<n;i++) w.push_back(D.at(i,c0+cs[bj]-1)); ck_eq(get(R),w,"last_column_of_block"); break;
   default: { c.note("op","gens"); Mat<zz_p> G,H; if(g.coin(1,2)){ G=dirty(g,n,rs.size()+cs.size()); H=dirty(g,m,rs.size()+cs.size()); } M.phi_plus_generators(G,H); CMat V=refZ(m,0); if(Tr<B>::h) V=ref::ctr(V); ck_eq(ref::cmul(get(G),ref::ctr(get(H))),ref::csub(ref::cmul(refZ(n,1),D),ref::cmul(D,V)),"phi_plus_generators"); } } }
template<class B> static void t_sol(Gen&g,Case&c){ int sq=g.coin(1,2); long big=g.coin(1,8)?16:5; Field f=gen_field(g,F_ALL,g.coin(1,6)?0:60); note_field(c,f); CMat D; std::vector<long> rs,cs; auto M=gen_mos<B>(g,c,D,rs,cs,sq,big); long n=D.r,m=D.c; bool strong=f.p>(1ULL<<40)&&n<=40&&m<=40; long rk=ref::crank(D); c.note("rank",rk); c.tag(rk==std::min(n,m)?"fullrank":"deficient"); NONTRIVIAL(c,n*m>1); long t=-1,ta=-1; if(g.coin(1,3)){ t=(long)g.pick({50L,10L,10000L}); ta=(long)g.pick({15L,8L,1L,1000L}); }
  if(n==m&&g.coin(1,2)){ c.note("op","inv"); typename Tr<B>::I I; long r=M.inv(I,t,ta); CHECK(r==0||r==1,"inv: unexpected return value"); if(strong) CHECK(r==(rk==n?1:0),"inv: wrong success indicator"); if(r==1){ CHECK(rk==n,"inv reports success on a singular matrix"); Mat<zz_p> X; I.to_dense(X); CHECK(ref::cmul(get(X),D)==ref::cident(n),"inv: not the inverse"); CMat W; ref::cinv(W,D); st_mulr(g,I,W); st_mull(g,I,W); } }
  else { bool cons=g.coin(1,2); ref::Vec b=cons?ref::cmulv(D,gen_list(g,m)):gen_list(g,n); c.note("solve",cons); Vec<zz_p> x; if(g.coin(1,2)) x=putv(gen_list(g,1+g.draw(5))); long r=M.solve(x,putv(b),t,ta); CHECK(r==0||r==1,"solve: unexpected return value"); if(strong) CHECK(r==1,"solve failed on a large field"); if(r==1){ CMat E(n,m+1); for(long i=0;i<n;i++){ for(long j=0;j<m;j++) E.at(i,j)=D.at(i,j); E.at(i,m)=b[i]; } bool has=ref::crank(E)==rk; c.note("consistent",has); if(x.length()==0) CHECK(!has,"solve: reports no solution but one exists"); else { CHECK(x.length()==m,"solve: solution has wrong length"); CHECK(has&&ref::cmulv(D,get(x))==b,"solve: not a solution"); } } } }
template<class B> static void t_big(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT); note_field(c,f); CMat D; std::vector<long> rs,cs; auto M=gen_mos<B>(g,c,D,rs,cs,1,70); long n=D.r; NONTRIVIAL(c,true); ref::Vec b=ref::cmulv(D,gen_list(g,n)); Vec<zz_p> x; long r=M.solve(x,putv(b)); if(r==1){ CHECK(x.length()==n&&ref::cmulv(D,get(x))==b,"solve: not a solution"); } typename Tr<B>::I I; r=M.inv(I); if(r==1){ ref::Vec v=gen_list(g,n); CHECK(get(I.mul_right(putv(ref::cmulv(D,v))))==v,"inv: not the inverse"); } }
static void hop(Gen&g,Case&c){ t_ops<hankel_lzz_p>(g,c); } static void top(Gen&g,Case&c){ t_ops<toeplitz_lzz_p>(g,c); } static void hso(Gen&g,Case&c){ t_sol<hankel_lzz_p>(g,c); } static void tso(Gen&g,Case&c){ t_sol<toeplitz_lzz_p>(g,c); } static void hbig(Gen&g,Case&c){ t_big<hankel_lzz_p>(g,c); } static void tbig(Gen&g,Case&c){ t_big<toeplitz_lzz_p>(g,c); }
std::vector<Sub> SUBS={{"hankel-ops",hop,12000,200000,100},{"toeplitz-ops",top,12000,200000,100},{"hankel-solve",hso,20000,400000,100},{"toeplitz-solve",tso,20000,400000,100},{"hankel-large",hbig,300,4000,10},{"toeplitz-large",tbig,300,4000,10}};
