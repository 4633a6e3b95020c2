// C21: power series and rational system solving
#include "pm.h"
#include "mat_lzz_pX_linsolve.h"
const char* PROP_RULE="(1) square systems of dimension 1..8 with invertible constant term, degrees 0..60, right-hand sides with 1..5 columns and degrees below/above the order, orders 1..300 (below and far above the degree), every solver, explicit thresholds, output fresh/dirty/aliased: deg u < prec and A*u = b mod x^prec by exact arithmetic; (2) rational solvers: A*u = den*b exactly with den non-zero, success reported by the kernel solver exactly when b is in the column space of A over the fractions (rank by reference elimination), rectangular and rank-deficient A included; non-trivial: dimension >= 2, degree >= 1, b non-zero";
std::vector<std::string> ASSUMPTIONS={"A(0) invertible for the series-based solvers (documented precondition)","the series-based rational solver is randomised: moduli above 2^40 (failure probability below 2^-25 per case)","with several reconstruction vectors only generic (dense random) systems, as the header says; high-order lifting needs deg b < deg A (documented)"};
std::vector<Known> KNOWN={};
static PMat gen_unit(Gen&g,long n,long d){ PMat A=g.coin(1,3)?gen_pmat(g,n,n,d+1):gen_pmat_dense(g,n,n,d+1); u64 st=g.draw(4); Rng q(g.seed32()); if(st==0||ref::cdet(ref::meval(A,0))==0) for(long i=0;i<n;i++) for(long j=0;j<n;j++){ Poly&p=A.at(i,j); if(p.empty()) p.push_back(0); p[0]=j<i?0:j==i?1+q.below(ref::P-1):q()%ref::P; ref::norm(p); } return A; }
static void t_series(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); u64 z=g.draw(8); long n,s,d,m; if(z<5){ n=1+g.size(0,4); s=1+g.size(0,3); d=g.size(0,10); m=1+g.size(0,40); } else if(z<7){ n=1+(long)g.draw(3); s=1+(long)g.draw(2); d=g.size(0,60); m=1+g.size(0,300); } else { n=1+(long)g.draw(8); s=1+(long)g.draw(5); d=g.size(0,5); m=1+g.size(0,30); }
  PMat A=gen_unit(g,n,d); u64 kind=g.draw(5); static const char*nm[]={"auto","auto-vector","low","high","lifting"}; long da=ref::mdeg(A); long db=kind==4?std::min(da,(long)g.size(0,da)):g.size(0,m+5); if(kind==1) s=1; PMat B=gen_pmat(g,n,s,db); long th=(kind==2&&g.coin(1,2))?1+(long)g.draw(40):-1; c.note("alg",nm[kind]); c.tag(std::string("alg:")+nm[kind]); c.note("n",n); c.note("s",s); c.note("d",da); c.note("degB",ref::mdeg(B)); c.note("prec",m); c.note("thresh",th); NONTRIVIAL(c,n>=2&&da>=1&&ref::mdeg(B)>=0&&m>1);
  PMat U; if(kind==1){ Vec<zz_pX> b=putpv(B.a),u; Mat<zz_pX> a=put(A); bool al=g.coin(1,2); Vec<zz_pX>&R=al?b:u; if(!al&&g.coin(1,3)) u=putpv(gen_pv(g,n,4)); if(g.coin(1,4)) R=solve_series(a,b,m); else solve_series(R,a,b,m); auto r=get(R); CHECK((long)r.size()==n,"length of the solution"); U=PMat(n,1); U.a=r; if(!al) ckv(get(b),B.a,"right-hand side afterwards"); ckm(a,A,"matrix afterwards"); }
  else { Mat<zz_pX> a=put(A),b=put(B),o; u64 al=g.draw(4); if(al==1) o=outm(g,n,s); Mat<zz_pX>*R=al==2?&a:al==3?&b:&o; c.note("out",al); if(g.coin(1,4)) *R=kind==0?solve_series(a,b,m):kind==2?solve_series_low_precision(a,b,m,th):kind==3?solve_series_high_precision(a,b,m):solve_series_high_order_lifting(a,b,m); else switch(kind){ case 0: solve_series(*R,a,b,m); break; case 2: solve_series_low_precision(*R,a,b,m,th); break; case 3: solve_series_high_precision(*R,a,b,m); break; default: solve_series_high_order_lifting(*R,a,b,m); } U=get(*R); if(R!=&a) ckm(a,A,"matrix afterwards"); if(R!=&b) ckm(b,B,"right-hand side afterwards"); }
  CHECK(U.r==n&&U.c==s,"shape of the solution"); CHECK(ref::mdeg(U)<m,"solution of degree not below the precision"); PMat At=ref::mtrunc(A,m),Bt=ref::mtrunc(B,m); double cost=(double)n*n*s*(ref::mdeg(At)+1)*m; if(cost<5e5) ckm(ref::mtrunc(ref::mmul(At,U),m),Bt,"A*u mod x^prec"); else { Rng q(g.seed32()); for(int t=0;t<(ref::P>1000000?2:20);t++){ ref::Vec w(n); for(auto&x:w) x=q()%ref::P; ckm(ref::mtrunc(ref::mmul(mproj(At,w),U),m),mproj(Bt,w),"random combination of A*u mod x^prec"); } } }
static void ck_rat(const PMat&A,const PV&u,const Poly&den,const PV&b,const std::string&w){ CHECK((long)u.size()==A.c,w+": length of u"); CHECK(ref::deg(den)>=0,w+": zero denominator"); PMat U(A.c,1),B(b.size(),1); U.a=u; for(size_t i=0;i<b.size();i++) B.at(i,0)=ref::pmul(den,b[i]); ckm(ref::mmul(A,U),B,w+": A*u against den*b"); }
static void t_rational(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<40); note_field(c,f); long n=1+g.size(0,5),d=g.size(0,8); PMat A=gen_unit(g,n,d); PV b=gen_pv(g,n,g.size(0,g.coin(1,4)?40:d+2)); u64 st=g.draw(4); if(st==0){ PMat U=gen_pmat(g,n,1,1+g.size(0,5)); b=ref::mmul(A,U).a; c.tag("polynomial-solution"); } c.note("n",n); c.note("d",ref::mdeg(A)); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1); Mat<zz_pX> a=put(A); Vec<zz_pX> bb=putpv(b),u; zz_pX den; if(g.coin(1,2)) den=put(gen_dense(g,5)); bool al=g.coin(1,3); Vec<zz_pX>&R=al?bb:u; long nb=g.coin(1,3)?1:-1; linsolve_via_series(R,den,a,bb,nb); ck_rat(A,get(R),get(den),b,"linsolve_via_series"); ckm(a,A,"matrix afterwards"); if(!al) ckv(get(bb),b,"right-hand side afterwards"); }
// several reconstruction vectors: meant for generic systems only (the header says other systems can fail), hence dense A and b
static void t_multi(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<40); note_field(c,f); long n=2+g.size(0,5),d=1+g.size(0,7); PMat A=gen_pmat_dense(g,n,n,d+1); PV b=gen_pmat_dense(g,n,1,1+g.size(0,g.coin(1,4)?30:d+2)).a; long nb=2+(long)g.draw(n); c.note("n",n); c.note("d",ref::mdeg(A)); c.note("nb",nb); c.note("degb",ref::deg(b[0])); NONTRIVIAL(c,true); Mat<zz_pX> a=put(A); Vec<zz_pX> bb=putpv(b),u; zz_pX den; if(g.coin(1,2)) den=put(gen_dense(g,5)); bool al=g.coin(1,3); Vec<zz_pX>&R=al?bb:u; linsolve_via_series(R,den,a,bb,nb); ck_rat(A,get(R),get(den),b,"linsolve_via_series with several vectors"); ckm(a,A,"matrix afterwards"); if(!al) ckv(get(bb),b,"right-hand side afterwards"); }
static void t_kernel(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=1+g.size(0,4),n=1+g.size(0,4),d=1+g.size(0,6); if(g.coin(1,2)) n=m; PMat A=gen_pmat(g,m,n,d); PV b; if(g.coin(1,3)){ PMat U=gen_pmat(g,n,1,1+g.size(0,4)); b=ref::mmul(A,U).a; c.tag("consistent-by-construction"); } else b=gen_pv(g,m,1+g.size(0,7)); PMat E(m,n+1); for(long i=0;i<m;i++){ for(long j=0;j<n;j++) E.at(i,j)=A.at(i,j); E.at(i,n)=b[i]; } bool cons=ref::mrank(A)==ref::mrank(E); c.note("m",m); c.note("n",n); c.note("d",ref::mdeg(A)); c.note("consistent",cons); c.tag(cons?"consistent":"inconsistent"); NONTRIVIAL(c,m>=2&&n>=2&&ref::mdeg(A)>=1);
  Mat<zz_pX> a=put(A); Vec<zz_pX> bb=putpv(b),u; zz_pX den; bool al=g.coin(1,3); Vec<zz_pX>&R=al?bb:u; long r=linsolve_via_kernel(R,den,a,bb); ckm(a,A,"matrix afterwards"); if(r!=0){ CHECK(cons,"success reported for an inconsistent system"); ck_rat(A,get(R),get(den),b,"linsolve_via_kernel"); } else CHECK(!cons,"no solution reported for a consistent system"); }
std::vector<Sub> SUBS={{"series",t_series,60000,1500000,40},{"rational",t_rational,20000,300000,40},{"rational_multi",t_multi,2000,60000,40},{"kernel",t_kernel,40000,500000,40}};
