// C19: truncated inverses and high-order lifting
#include "pm.h"
#include "mat_lzz_pX_inverse.h"
const char* PROP_RULE="random square matrices (dimension 1..12) with invertible constant term, degrees 0..60 below/at/above the order, orders 1..300 across the Newton thresholds, explicit thresholds, every modulus class, output fresh/dirty/aliased; A*X = X*A = I mod x^m and deg X < m checked by schoolbook products or exact random projections; high-order lifting chains compared with slices of the expansion computed by schoolbook recurrence; non-trivial: dimension >= 2, degree >= 1, order >= 2";
std::vector<std::string> ASSUMPTIONS={"constant term invertible, order at least 1; FFT and geometric variants only where the field has the roots/points","NTL moduli set up as FFT primes have at least 2^14 roots of unity (NTL's own products abort otherwise)"};
std::vector<Known> KNOWN={};
static PMat gen_unit(Gen&g,long n,long d){ for(int t=0;t<20;t++){ PMat A=g.coin(1,3)?gen_pmat(g,n,n,d+1):gen_pmat_dense(g,n,n,d+1); u64 st=g.draw(5); if(st==0) for(long i=0;i<n;i++) for(long j=0;j<n;j++){ Poly&p=A.at(i,j); if(p.empty()) p.push_back(0); p[0]=(i==j)?1%ref::P:0; ref::norm(p); } else if(st==1){ Rng q(g.seed32()); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ Poly&p=A.at(i,j); if(p.empty()) p.push_back(0); p[0]=j<i?0:j==i?1+q.below(ref::P-1):q()%ref::P; ref::norm(p); } } if(ref::cdet(ref::meval(A,0))!=0) return A; } PMat A=gen_pmat_dense(g,n,n,d+1); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ Poly&p=A.at(i,j); if(p.empty()) p.push_back(0); p[0]=(i==j)?1%ref::P:0; ref::norm(p);} return A; }
// exact random projection of (A*X mod x^m) == I
static void ck_inv(Gen&g,const PMat&A0,const PMat&X,long m,const std::string&w){ CHECK(X.r==A0.r&&X.c==A0.r,w+": shape"); CHECK(ref::mdeg(X)<m,w+": degree not below the order"); PMat A=ref::mtrunc(A0,m); long n=A.r; double cost=(double)n*n*n*(ref::mdeg(A)+1)*(ref::mdeg(X)+1); if(cost<2e5){ ckm(ref::mtrunc(ref::mmul(A,X),m),ref::mident(n),w+": A*X mod x^m"); ckm(ref::mtrunc(ref::mmul(X,A),m),ref::mident(n),w+": X*A mod x^m"); return; }
  Rng q(g.seed32()); int reps=ref::P>(1ULL<<30)?2:ref::P>1000?6:24; for(int t=0;t<reps;t++){ ref::Vec u(n),v(n); for(auto&x:u) x=q()%ref::P; for(auto&x:v) x=q()%ref::P; u64 uv=0; for(long i=0;i<n;i++) uv=ref::add(uv,ref::mul(u[i],v[i])); Poly want=Poly{uv}; ref::norm(want); PMat l=ref::mtrunc(ref::mmul(mproj(A,u),ref::mtr(mproj(ref::mtr(X),v))),m); CHECK(ref::peq(l.at(0,0),want),w+": A*X mod x^m is not the identity"); } }
static void t_inv(Gen&g,Case&c){ u64 kind=g.draw(9); static const char*nm[]={"auto","auto","auto","plain","FFT","middle_product","geometric","middle_product_thresh","geometric_thresh"}; u64 z=g.draw(10); long n,d,m; if(z<6){ n=1+g.size(0,4); d=g.size(0,12); m=1+g.size(0,40); } else if(z<8){ n=1+(long)g.draw(3); d=g.size(0,60); m=g.pick({31L,32L,33L,63L,64L,65L,100L,127L,128L,129L,200L,255L,256L,257L,300L}); } else { n=1+(long)g.draw(12); d=g.size(0,6); m=1+g.size(0,20); }
  long th=-1; if(kind==4){ if(g.coin(1,2)) th=1+(long)g.draw(20); } else if(kind>=5&&g.coin(1,2)) th=1+(long)g.draw(20);
  Field f; if(kind==4) f=gen_field(g,F_FFT|F_USERFFT); else if(kind==6||kind==8) f=gen_field(g,F_ALL,16*3*std::max(m,64L)); else f=gen_field(g); note_field(c,f); c.note("alg",nm[kind]); c.tag(std::string("alg:")+nm[kind]); c.note("n",n); c.note("d",d); c.note("m",m); c.note("thresh",th);
  PMat A=gen_unit(g,n,d); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1&&m>=2); Mat<zz_pX> a=put(A),o; u64 al=g.draw(3); Mat<zz_pX>*R=al==2?&a:&o; if(al==1) o=outm(g,n,n); if(g.coin(1,10)) o=a; c.note("out",al);
  switch(kind){ case 3: plain_inv_trunc(*R,a,m); break; case 4: newton_inv_trunc_FFT(*R,a,m,th); break; case 5: case 7: newton_inv_trunc_middle_product(*R,a,m,th); break; case 6: case 8: newton_inv_trunc_geometric(*R,a,m,th); break; default: if(g.coin(1,4)&&R!=&a) *R=inv_trunc(a,m); else inv_trunc(*R,a,m); }
  ck_inv(g,A,get(*R),m,nm[kind]); if(R!=&a) ckm(a,A,"argument afterwards"); }
// coefficients of the inverse by the recurrence A0*X_k = I*[k==0] - sum A_i X_{k-i}
static std::vector<CMat> invcoeffs(const PMat&A,long m){ CMat I0; ref::cinv(I0,ref::mcoef(A,0)); long n=A.r,d=ref::mdeg(A); std::vector<CMat> AC,X; for(long i=0;i<=d;i++) AC.push_back(ref::mcoef(A,i)); for(long k=0;k<m;k++){ CMat S(n,n); if(k==0) S=ref::cident(n); for(long i=1;i<=std::min(k,d);i++) S=ref::csub(S,ref::cmul(AC[i],X[k-i])); X.push_back(ref::cmul(I0,S)); } return X; }
static void t_lift(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=1+g.size(0,3),d=1+g.size(0,g.coin(1,5)?40:8),steps=1+(long)g.draw(d>8?2:4); PMat A=gen_unit(g,n,d); long e=ref::mdeg(A); if(g.coin(3,4)&&e>=1) d=e; // usually d = deg(A); a bound above it is allowed by the definition of the slices
  if(e>d) throw Discard(); long i=d+(long)g.draw(3*d); c.note("n",n); c.note("degA",e); c.note("d",d); c.note("i",i); c.note("steps",steps); NONTRIVIAL(c,n>=2&&e>=1);
  long last=i; for(long s=0;s<steps;s++) last=2*last-d; if(last>2500) throw Discard(); std::vector<CMat> X=invcoeffs(A,last+1); auto slice=[&](long k){ PMat S(n,n); for(long a=0;a<n*n;a++){ Poly p; for(long t=k-(2*d-1);t<=k-1;t++) p.push_back(t<0?0:X[t].a[a]); ref::norm(p); S.a[a]=p; } return S; };
  Mat<zz_pX> a=put(A); PMat IV(n,n); for(long q=0;q<n*n;q++){ Poly p; for(long t=0;t<d;t++) p.push_back(X[t].a[q]); ref::norm(p); IV.a[q]=p; } auto ma=get_lmultiplier(a,d-1+(long)g.draw(2)),mi=get_lmultiplier(put(IV),d-1+(long)g.draw(2)); Mat<zz_pX> src=put(slice(i)),nx; long k=i; for(long s=0;s<steps;s++){ PMat S=slice(k); k=2*k-d; if(g.coin(1,2)){ high_order_lift_inverse_odd(src,src,ma,mi,d); } else { nx=outm(g,n,n); high_order_lift_inverse_odd(nx,src,ma,mi,d); ckm(src,S,"source slice afterwards"); src=nx; } ckm(src,slice(k),"slice after step "+std::to_string(s)); } }
std::vector<Sub> SUBS={{"inv_trunc",t_inv,40000,1000000,40},{"lift",t_lift,20000,400000,40}};
