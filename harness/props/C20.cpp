// C20: division with remainder of polynomial matrices
#include "pm.h"
#include "forms.h"
const char* PROP_RULE="random square row-reduced divisors (uneven row degrees 0..40, invertible leading matrix) of dimension 1..10, dividends of every style built either at random or as B*Q0+R0 with known quotient and remainder, degrees below/at/far above the divisor's, dirty outputs, every modulus class; A = B*Q + R checked by exact arithmetic, row degrees of R below those of B, and equality with the known quotient and remainder; non-trivial: dimension >= 2, divisor degree >= 1, non-zero quotient";
std::vector<std::string> ASSUMPTIONS={"divisor square and row reduced, at least one row and column; outputs are distinct from the inputs (the interface does not promise aliasing)"};
std::vector<Known> KNOWN={};
static PMat gen_reduced(Gen&g,long n,long D,std::vector<long>&rd){ rd.assign(n,0); u64 st=g.draw(4); for(auto&x:rd) x=st==0?D:(long)g.draw(D+1); if(st==1) rd[g.draw(n)]=D; Rng q(g.seed32()); CMat L; do { L=CMat(n,n); for(auto&x:L.a) x=q()%ref::P; if(ref::P<50||g.coin(1,3)) for(long i=0;i<n;i++) for(long j=0;j<n;j++) L.at(i,j)=j<i?0:j==i?1+q.below(ref::P-1):q()%ref::P; } while(ref::cdet(L)==0); bool sp=g.coin(1,4); PMat B(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ Poly p; for(long k=0;k<rd[i];k++) p.push_back(sp&&q.below(3)?0:q()%ref::P); p.push_back(L.at(i,j)); ref::norm(p); B.at(i,j)=p; } return B; }
static void t_div(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); u64 z=g.draw(8); long m,n,D,dq; if(z<5){ m=1+g.size(0,4); n=1+g.size(0,4); D=g.size(0,8); dq=g.size(0,12); } else if(z<7){ m=1+(long)g.draw(3); n=1+(long)g.draw(2); D=g.size(0,40); dq=g.size(0,200); } else { m=1+(long)g.draw(10); n=1+(long)g.draw(10); D=g.size(0,5); dq=g.size(0,10); }
  std::vector<long> rd; PMat B=gen_reduced(g,m,D,rd); c.note("m",m); c.note("n",n); c.note("D",D); c.note("dq",dq); PMat A,Q0,R0; bool built=g.coin(1,2); if(built){ Q0=gen_pmat(g,m,n,dq); R0=PMat(m,n); for(long i=0;i<m;i++){ PMat w=gen_pmat(g,1,n,rd[i]); for(long j=0;j<n;j++) R0.at(i,j)=w.at(0,j); } A=ref::madd(ref::mmul(B,Q0),R0); } else A=gen_pmat(g,m,n,g.coin(1,3)?D:D+dq); c.note("built",built); c.note("degA",ref::mdeg(A));
  Mat<zz_pX> a=put(A),b=put(B),q=outm(g,m,n),r=outm(g,m,n); quo_rem(q,r,a,b); ckm(a,A,"dividend afterwards"); ckm(b,B,"divisor afterwards"); PMat Q=get(q),R=get(r); CHECK(Q.r==m&&Q.c==n&&R.r==m&&R.c==n,"shape of quotient or remainder"); NONTRIVIAL(c,m>=2&&D>=1&&ref::mdeg(Q)>=0); for(long i=0;i<m;i++) for(long j=0;j<n;j++) CHECK((long)ref::deg(R.at(i,j))<rd[i],"remainder too large in row "+std::to_string(i)); ckm(ref::madd(ref::mmul(B,Q),R),A,"B*Q+R"); if(built){ ckm(Q,Q0,"quotient"); ckm(R,R0,"remainder"); } }
std::vector<Sub> SUBS={{"division",t_div,12000,300000,40}};
