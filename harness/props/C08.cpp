// C08: scalar structured matrices
#include "st.h"
const char* PROP_RULE="random class (Hankel, Toeplitz, lower triangular Toeplitz, circulant row/column, Sylvester), shape 1..220, defining data dense/sparse/zero; products on both sides of vectors and matrices with aliased/dirty outputs compared with the dense matrix built independently from the definition; Sylvester solve/solve_transpose/inv/top_right_block_inverse on coprime and non-coprime pairs, before and after prepare_inverse; non-trivial: non-zero matrix with at least 2 entries (Sylvester: both degrees >= 1)";
std::vector<std::string> ASSUMPTIONS={"dimensions at least 1; for Sylvester solving and inversion both polynomials have degree at least 1 (the constructors of NTL moduli abort otherwise)"};
std::vector<Known> KNOWN={};
static void t_hankel(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r,k; gen_shape(g,c,r,k); ref::Vec d=gen_list(g,r+k-1); CMat D(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) D.at(i,j)=d[r+k-2-i-j]; hankel_lzz_p M(putv(d),r,k); CHECK(get(M(r-1,0))==D.at(r-1,0)&&get(M(0,k-1))==D.at(0,k-1),"entry access wrong"); st_all(g,c,M,D); }
static void t_toep(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r,k; gen_shape(g,c,r,k); ref::Vec d=gen_list(g,r+k-1); CMat D(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) D.at(i,j)=d[k-1+i-j]; toeplitz_lzz_p M(putv(d),r,k); CHECK(get(M(r-1,0))==D.at(r-1,0)&&get(M(0,k-1))==D.at(0,k-1),"entry access wrong"); st_all(g,c,M,D); }
static void t_ltt(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r,k; gen_shape(g,c,r,k); ref::Vec d=gen_list(g,r); CMat D(r,r); for(long i=0;i<r;i++) for(long j=0;j<=i;j++) D.at(i,j)=d[i-j]; lower_triangular_toeplitz_lzz_p M(putv(d)); st_all(g,c,M,D); }
static void t_circr(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r,k; gen_shape(g,c,r,k); ref::Vec d=gen_list(g,k); CMat D(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) D.at(i,j)=d[((i-j-1)%k+k)%k]; circulant_row_lzz_p M(putv(d),r); st_all(g,c,M,D); }
static void t_circc(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r,k; gen_shape(g,c,r,k); ref::Vec d=gen_list(g,r); CMat D(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) D.at(i,j)=d[((i-j)%r+r)%r]; circulant_column_lzz_p M(putv(d),k); st_all(g,c,M,D); }
static Poly poly_deg(Gen&g,long d){ Poly a=gen_poly(g,d+1); a.resize(d+1,0); if(a[d]==0) a[d]=gen_nz(g); return a; }
static CMat sylv(const Poly&a,const Poly&b){ long da=ref::deg(a),db=ref::deg(b),n=da+db; CMat D(n,n); for(long i=0;i<db;i++) for(long j=0;j<=da;j++) D.at(i+j,i)=a[j]; for(long i=0;i<da;i++) for(long j=0;j<=db;j++) D.at(i+j,i+db)=b[j]; return D; }
static void gen_ab(Gen&g,Case&c,Poly&a,Poly&b,long mx,long lo){ long da=g.size(lo,mx),db=g.size(lo,mx); if(da+db==0) da=1; if(da&&db&&g.coin(1,4)){ long e=1+(long)g.draw(std::min(da,db)); Poly h=poly_deg(g,e); a=ref::pmul(h,poly_deg(g,da-e)); b=ref::pmul(h,poly_deg(g,db-e)); } else { a=poly_deg(g,da); b=poly_deg(g,db); } c.note("dA",ref::deg(a)); c.note("dB",ref::deg(b)); }
static void t_sylv(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); Poly a,b; if(LONG){ a=poly_deg(g,llen(g,120,700)); b=poly_deg(g,g.coin(1,3)?(long)g.draw(30):llen(g,120,700)); if(g.coin(1,2)) std::swap(a,b); c.note("dA",ref::deg(a)); c.note("dB",ref::deg(b)); } else gen_ab(g,c,a,b,g.coin(1,4)?120:12,0); CMat D=sylv(a,b); sylvester_lzz_p M(put(a),put(b)); st_all(g,c,M,D); }
static void t_sylvinv(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); Poly a,b; gen_ab(g,c,a,b,g.coin(1,5)?40:8,1); CMat D=sylv(a,b); long n=D.r; CMat I; bool ok=ref::cinv(I,D); c.note("invertible",ok); c.tag(ok?"invertible":"singular"); NONTRIVIAL(c,true); sylvester_lzz_p M(put(a),put(b)); long k=1+(long)g.draw(4);
  for(long it=0;it<k;it++) switch(g.draw(9)){
   case 0: c.note("op","prepare"); M.prepare_inverse(); break;
   case 1: { c.note("op","solve"); ref::Vec v=gen_list(g,n); Vec<zz_p> V=putv(v),W; long r; if(g.coin(1,3)){ r=M.solve(V,V); W=V; } else r=M.solve(W,V); CHECK(r==(ok?1:0),"solve: wrong return value"); if(ok) ck_eq(get(W),ref::cmulv(I,v),"solve"); break; }
   case 2: { c.note("op","solvet"); ref::Vec v=gen_list(g,n); Vec<zz_p> V=putv(v),W; long r; if(g.coin(1,3)){ r=M.solve_transpose(V,V); W=V; } else r=M.solve_transpose(W,V); CHECK(r==(ok?1:0),"solve_transpose: wrong return value"); if(ok) ck_eq(get(W),ref::cvmul(v,I),"solve_transpose"); break; }
   case 3: { c.note("op","solvem"); CMat A=gen_cmat(g,n,1+(long)g.draw(3)); Mat<zz_p> V=put(A),W; long r; if(g.coin(1,3)){ r=M.solve(V,V); W=V; } else r=M.solve(W,V); CHECK(r==(ok?1:0),"solve(matrix): wrong return value"); if(ok) ck_eq(get(W),ref::cmul(I,A),"solve(matrix)"); break; }
   case 4: { c.note("op","solvetm"); CMat A=gen_cmat(g,1+(long)g.draw(3),n); Mat<zz_p> V=put(A),W; long r; if(g.coin(1,3)){ r=M.solve_transpose(V,V); W=V; } else r=M.solve_transpose(W,V); CHECK(r==(ok?1:0),"solve_transpose(matrix): wrong return value"); if(ok) ck_eq(get(W),ref::cmul(A,I),"solve_transpose(matrix)"); break; }
   case 5: { c.note("op","gens"); Mat<zz_p> G,H; if(g.coin(1,2)){ G=dirty(g,n,2); H=dirty(g,n,2);} M.phi_plus_generators(G,H); ck_eq(ref::cmul(get(G),ref::ctr(get(H))),ref::csub(ref::cmul(refZ(n,1),D),ref::cmul(D,refZ(n,0))),"phi_plus_generators"); break; }
   case 6: { c.note("op","inv"); toeplitz_like_minus_lzz_p R; long r=M.inv(R); CHECK(r==(ok?1:0),"inv: wrong return value"); if(ok){ st_dense(g,R,I); st_mulr(g,R,I); st_mull(g,R,I); } break; }
   default: { long m=1+(long)g.draw(n); c.note("trblock",m); Mat<zz_p> B; if(g.coin(1,2)) B=dirty(g,m,m); long r=M.top_right_block_inverse(B,m); CHECK(r==(ok?1:0),"top_right_block_inverse: wrong return value"); if(ok){ CMat W(m,m); for(long i=0;i<m;i++) for(long j=0;j<m;j++) W.at(i,j)=I.at(i,n-m+j); ck_eq(get(B),W,"top_right_block_inverse"); } break; } } }
static void t_long(Gen&g,Case&c){ LongMode lm; u64 k=g.draw(7); c.note("kind",k); switch(k){ case 0: t_hankel(g,c); break; case 1: t_toep(g,c); break; case 2: t_ltt(g,c); break; case 3: t_circr(g,c); break; case 4: t_circc(g,c); break; case 5: t_sylv(g,c); break;
  default: { Field f=gen_field(g); note_field(c,f); Poly a=poly_deg(g,llen(g,60,400)),b=poly_deg(g,g.coin(1,3)?1+(long)g.draw(30):llen(g,60,400)); if(g.coin(1,2)) std::swap(a,b); c.note("dA",ref::deg(a)); c.note("dB",ref::deg(b)); NONTRIVIAL(c,true); long n=ref::deg(a)+ref::deg(b); bool ok=deg(GCD(put(a),put(b)))==0; sylvester_lzz_p M(put(a),put(b)); if(g.coin(1,2)) M.prepare_inverse(); ref::Vec v=gen_list(g,n); Vec<zz_p> V=putv(v),W; bool tr=g.coin(1,2); long r=tr?M.solve_transpose(W,V):M.solve(W,V); CHECK(r==(ok?1:0),"solve: wrong return value"); if(ok){ CMat D=sylv(a,b); ck_eq(tr?ref::cvmul(get(W),D):ref::cmulv(D,get(W)),v,"solve (multiplied back)"); } } } }
std::vector<Sub> SUBS={{"hankel",t_hankel,20000,400000,100},{"toeplitz",t_toep,20000,400000,100},{"lower-toeplitz",t_ltt,12000,300000,100},{"circulant-row",t_circr,20000,400000,100},{"circulant-column",t_circc,20000,400000,100},{"sylvester",t_sylv,16000,300000,100},{"sylvester-inverse",t_sylvinv,20000,400000,100},{"long",t_long,160,6000,20}};
