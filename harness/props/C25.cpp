// C25: kernel bases
#include "kern.h"
#include "mat_lzz_pX_kernel.h"
#include <algorithm>
const char* PROP_RULE="(1) kernel_basis, via_approximation, via_interpolation, zls_via_approximation, zls_via_interpolation on 1..10 rows and 1..8 columns (a share with 11..18 rows; wide, square, tall), degrees 0..30, every prime size incl. 2 and the FFT primes, dense/sparse/low-rank/zero/duplicated rows, unbalanced row and column degrees, square matrices with dependent rows, shifts of any sign and amplitude or the row degrees: K*F=0 exactly, number of rows = rows - rank (reference rank), ordered weak Popov form for the shift, returned shift = shifted row degrees, returned pivot indices, and every kernel vector generated (gcd of the maximal minors of K is 1, exact); (1b) the same on kernels of very unequal degrees (core of n+1 rows, other rows low-degree combinations, rows permuted); (2) kernel_basis_generic on [x^d I + A; V] random over primes above 2^40: same facts with weak Popov form for the zero shift (membership and rank only for the 16 dimension triples of the known finding); non-trivial: kernel of positive dimension smaller than the number of rows and F of degree at least 1";
std::vector<std::string> ASSUMPTIONS={"the shift has one entry per row and the output does not alias the input","kernel_basis_generic: input generic (random over a prime above 2^40) of the documented shape, and kerbas initialised to the identity when d>1 (it is documented as multiplied by the basis)"};
static void t_ker(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); static const char*nm[]={"interface","approximation","interpolation","zls-approximation","zls-interpolation"}; u64 a=g.draw(5); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); long m,n,d; u64 z=g.draw(10); if(z<7){ m=1+g.size(0,6); n=1+g.size(0,4); d=1+g.size(0,5); } else if(z<9){ m=2+(long)g.draw(8); n=1+(long)g.draw(m/2); d=1+(long)g.draw(8); } else { m=1+(long)g.draw(5); n=1+(long)g.draw(2); d=8+(long)g.draw(24); } PMat F=gen_F(g,m,n,d); VL s; if(g.coin(1,4)) s=rrdeg(F,VL(n,0)); else s=gen_shift(g,m,g.coin(1,4)?3*d:3); c.note("m",m); c.note("n",n); c.note("deg",ref::mdeg(F)); c.note("shift",vstr(s)); long rk=ref::mrank(F); c.note("rank",rk); NONTRIVIAL(c,rk>0&&rk<m&&ref::mdeg(F)>=1); c.tag(rk==std::min(m,n)?"full-rank":"rank-deficient"); c.tag(m>n?"tall":m==n?"square":"wide");
  Mat<zz_pX> fm=put(F),K=outm(g,m,m); VecLong sh(s.begin(),s.end()),pi; if(g.coin(1,4)) pi.assign(3,7); { Quiet q; switch(a){ case 0: kernel_basis(K,fm,sh); CHECK(VL(sh.begin(),sh.end())==s,"shift changed"); break; case 1: kernel_basis_via_approximation(K,pi,fm,sh); break; case 2: kernel_basis_via_interpolation(K,pi,fm,sh); break; case 3: kernel_basis_zls_via_approximation(K,fm,sh); break; default: kernel_basis_zls_via_interpolation(K,fm,sh); } }
  PMat k=get(K); ck_ker(g,k,F,s,3,nm[a]); if(a<3) ckm(fm,F,"input afterwards"); if(a>0){ VL d0=rrdeg(k,s); CHECK(VL(sh.begin(),sh.end())==d0,std::string(nm[a])+": degrees returned "+vstr(VL(sh.begin(),sh.end()))+" instead of "+vstr(d0)); } if(a==1||a==2){ VL i0,e0; rpiv(k,s,i0,e0); CHECK(VL(pi.begin(),pi.end())==i0,std::string(nm[a])+": pivots returned "+vstr(VL(pi.begin(),pi.end()))+" instead of "+vstr(i0)); } }
// dimensions for which the result is known not to be weak Popov (KNOWN_FINDINGS.txt, kernel_basis_generic-form): only kernel membership and rank are demanded there
static bool listed(long d,long n,long m){ static const int L[][3]={{1,4,3},{1,5,4},{1,6,3},{1,6,5},{1,7,6},{2,4,3},{2,6,3},{2,6,5},{2,7,2},{2,7,6},{3,5,4},{3,6,5},{4,3,2},{4,6,5},{4,7,6},{5,7,6}}; for(auto&x:L) if(x[0]==d&&x[1]==n&&x[2]==m) return true; return false; }
static PMat gshape(Rng&q,long d,long n,long m){ PMat F(m+n,n); for(auto&p:F.a){ p.resize(d?d:1); for(auto&x:p) x=q()%ref::P; ref::norm(p); } if(d) for(long i=0;i<n;i++){ F.at(i,i).resize(d,0); F.at(i,i).push_back(1); } return F; }
static void t_gen(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<40); note_field(c,f); long n=1+g.size(0,6),m=1+g.size(0,n+1),d=g.coin(1,3)?1:(long)g.size(0,5); c.note("n",n); c.note("m",m); c.note("d",d); NONTRIVIAL(c,d>=1); Rng q(g.seed32()); PMat F=gshape(q,d,n,m); Mat<zz_pX> fm=put(F),K; if(d==0||(d==1&&m<n)) K=outm(g,m,m+n); else K=put(ref::mident(m+n)); kernel_basis_generic(K,fm); PMat k=get(K); if(!listed(d,n,m)){ ck_ker(g,k,F,VL(m+n,0),2,"kernel_basis_generic"); return; } c.tag("listed-dimensions"); CHECK(k.r==m&&k.c==m+n,"kernel_basis_generic: shape"); CHECK(ref::mdeg(ref::mmul(k,F))<0,"kernel_basis_generic: rows not in the kernel"); CHECK(ref::mrank(k)==m,"kernel_basis_generic: rows not independent"); }
static void k_form(){ zz_p::init(1125899906842597L); ref::P=1125899906842597ULL; Rng q(1); PMat F=gshape(q,1,4,3); Mat<zz_pX> fm=put(F),K; kernel_basis_generic(K,fm); if(!f_weak(get(K),VL(7,0))) throw 1; }
std::vector<Known> KNOWN={{"kernel_basis_generic-form",k_form}};
// kernels of very unequal degrees: a core of n+1 rows whose kernel has degree n*d, the other rows being combinations of low degree; the truncated bases computed first cannot capture the whole kernel, so the recursions and the merging of both parts are reached
static void t_late(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); static const char*nm[]={"interface","approximation","interpolation","zls-approximation","zls-interpolation"}; u64 a=g.coin(1,3)?g.draw(3):3+g.draw(2); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); long n=2+(long)g.draw(3),m=2*n+(long)g.draw(3),d=1+g.size(0,g.coin(1,4)?8:3),r=g.coin(1,6)?n:n+1+(long)g.draw(2); r=std::min(r,m); PMat core=gen_pmat_dense(g,r,n,d),L=gen_pmat(g,m,r,1+(long)g.draw(2)),F; for(long i=0;i<r;i++) for(long j=0;j<r;j++) L.at(i,j)=i==j?Poly{1}:Poly(); F=ref::mmul(L,core); std::vector<long> pm(m); for(long i=0;i<m;i++) pm[i]=i; Rng q(g.seed32()); for(long i=m-1;i>0;i--) std::swap(pm[i],pm[q.below(i+1)]); PMat G(m,n); for(long i=0;i<m;i++) for(long j=0;j<n;j++) G.at(i,j)=F.at(pm[i],j); F=G; VL s; if(g.coin(1,2)) s=rrdeg(F,VL(n,0)); else s=gen_shift(g,m,g.coin(1,4)?2*d:3); c.note("m",m); c.note("n",n); c.note("core",r); c.note("deg",ref::mdeg(F)); c.note("shift",vstr(s)); NONTRIVIAL(c,ref::mdeg(F)>=1);
  Mat<zz_pX> fm=put(F),K=outm(g,m,m); VecLong sh(s.begin(),s.end()),pi; { Quiet z; switch(a){ case 0: kernel_basis(K,fm,sh); break; case 1: kernel_basis_via_approximation(K,pi,fm,sh); break; case 2: kernel_basis_via_interpolation(K,pi,fm,sh); break; case 3: kernel_basis_zls_via_approximation(K,fm,sh); break; default: kernel_basis_zls_via_interpolation(K,fm,sh); } }
  PMat k=get(K); ck_ker(g,k,F,s,3,nm[a]); if(a>0){ VL d0=rrdeg(k,s); CHECK(VL(sh.begin(),sh.end())==d0,std::string(nm[a])+": degrees returned "+vstr(VL(sh.begin(),sh.end()))+" instead of "+vstr(d0)); } }
// more rows and columns, over primes large enough for random projections to decide whether the rows generate the kernel
static void t_med(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); static const char*nm[]={"interface","approximation","interpolation","zls-approximation","zls-interpolation"}; u64 a=g.draw(5); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]); long m=11+(long)g.draw(8),n=1+(long)g.draw(g.coin(1,4)?m+2:m/2),d=1+(long)g.draw(3); PMat F=g.coin(1,2)?gen_pmat_dense(g,m,n,d+1):gen_F(g,m,n,d); VL s; if(g.coin(1,2)) s=rrdeg(F,VL(n,0)); else s=gen_shift(g,m,3); c.note("m",m); c.note("n",n); c.note("deg",ref::mdeg(F)); c.note("shift",vstr(s)); NONTRIVIAL(c,ref::mdeg(F)>=1); Mat<zz_pX> fm=put(F),K=outm(g,m,m); VecLong sh(s.begin(),s.end()),pi; { Quiet z; switch(a){ case 0: kernel_basis(K,fm,sh); break; case 1: kernel_basis_via_approximation(K,pi,fm,sh); break; case 2: kernel_basis_via_interpolation(K,pi,fm,sh); break; case 3: kernel_basis_zls_via_approximation(K,fm,sh); break; default: kernel_basis_zls_via_interpolation(K,fm,sh); } } PMat k=get(K); ck_ker(g,k,F,s,3,nm[a]); if(a>0){ VL d0=rrdeg(k,s); CHECK(VL(sh.begin(),sh.end())==d0,std::string(nm[a])+": degrees returned "+vstr(VL(sh.begin(),sh.end()))+" instead of "+vstr(d0)); } }
std::vector<Sub> SUBS={{"medium",t_med,100,2000,20},{"late",t_late,6000,120000,20},{"kernel",t_ker,120000,2500000,20},{"generic",t_gen,10000,200000,20}};
