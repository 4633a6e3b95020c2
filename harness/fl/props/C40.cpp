#include "pm.h"
#include "../pmlflint.h"
#include <gmpxx.h>
const char*PROP_RULE="a case is non-trivial when there are at least two moduli and a value above the largest of them (reduction and reconstruction), or the matrices have at least two rows and columns and a nonzero product, or the modulus is at least 5 (roots and powers of two)";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.* on top of GMP, which passes all of flint-extras' own tests","moduli are distinct primes, residues are reduced modulo their prime, vectors given to nmod_multimod_CRT_reduce are reduced modulo p; 1 to 4 primes for nmod_multimod_CRT","nmod_multimod_CRT_reduce and fmpz_mat_mul_multimod exist only with AVX2"};
std::vector<Known> KNOWN={};
typedef mpz_class Z;
static Z zu(u64 x){ Z r; mpz_set_ui(r.get_mpz_t(),x); return r; }
static u64 zmod(const Z&a,u64 n){ return mpz_fdiv_ui(a.get_mpz_t(),n); }
struct FZ { fmpz_t f; FZ(){ fmpz_init(f); } explicit FZ(const Z&a){ fmpz_init(f); fmpz_set_mpz(f,a.get_mpz_t()); } FZ(const FZ&)=delete; ~FZ(){ fmpz_clear(f); } Z val()const{ Z r; fmpz_get_mpz(r.get_mpz_t(),f); return r; } };
static Z randz(Rng&q,long bits){ Z r=0; for(long i=0;i<bits;i+=64){ r<<=64; r+=zu(q()); } Z m=1; m<<=bits; Z t; mpz_fdiv_r(t.get_mpz_t(),r.get_mpz_t(),m.get_mpz_t()); return t; }
static std::string zs(const Z&a){ std::string t=a.get_str(); return t.size()>60?t.substr(0,60)+"...":t; }
// distinct primes, by size class
static std::vector<u64> primes(Gen&g,long n,std::string&st){ u64 k=g.draw(7); Rng q(g.seed32()); std::vector<u64> v; std::map<u64,int> seen; u64 cur; switch(k){
  case 0: st="small"; cur=1; while((long)v.size()<n){ cur=nextprime(cur+1); v.push_back(cur); } return v;
  case 1: { int b=(int)g.range(13,63); st="consecutive:"+std::to_string(b); cur=1ULL<<b; while((long)v.size()<n){ cur=nextprime(cur+1); v.push_back(cur); } return v; }
  case 2: st="top64"; cur=~0ULL; while((long)v.size()<n){ cur=prevprime(cur); v.push_back(cur); cur--; } return v;
  case 3: st="below2^30"; cur=(1ULL<<30)-1; while((long)v.size()<n){ cur=prevprime(cur); v.push_back(cur); cur--; } return v;
  case 4: st="around2^30"; cur=(1ULL<<30)-(u64)(10*n); while((long)v.size()<n){ cur=nextprime(cur+1); v.push_back(cur); } return v;
  case 5: { int b=(int)g.range(14,62); st="random:"+std::to_string(b); while((long)v.size()<n){ u64 x=nextprime((1ULL<<b)+q()%(1ULL<<b)); if(!seen[x]++) v.push_back(x); } return v; }
  default: st="mixed"; while((long)v.size()<n){ int b=14+(int)q.below(49); u64 x=nextprime((1ULL<<b)+q()%(1ULL<<b)); if(!seen[x]++) v.push_back(x); } return v; } }
static Z value(Gen&g,const Z&prod){ Rng q(g.seed32()); long pb=(long)mpz_sizeinbase(prod.get_mpz_t(),2); switch(g.draw(9)){ case 0: return 0; case 1: return prod-1; case 2: return -(prod-1); case 3: return randz(q,62+(long)q.below(4)); case 4: return -randz(q,61+(long)q.below(5)); case 5: return randz(q,pb+(long)q.below(200))-randz(q,pb); case 6: return -randz(q,std::max(1L,(long)q.below(pb)+1)); default: { Z r=randz(q,pb+64); return r%prod; } } }
static long nprimes(Gen&g){ switch(g.draw(10)){ case 0: return 1; case 1: return 2; case 2: case 3: case 4: return 1+(long)g.draw(8); case 5: case 6: return 1+(long)g.draw(40); case 7: return 190+(long)g.draw(30); case 8: return 100+(long)g.draw(100); default: return g.coin(1,4)?400+(long)g.draw(700):1+(long)g.draw(20); } }
static void big(Gen&g,Case&c){ long n=nprimes(g); std::string st; auto pr=primes(g,n,st); Z prod=1; u64 mx=0; for(u64 p:pr){ prod*=zu(p); mx=std::max(mx,p); } c.note("primes",st); c.note("count",n); c.tag("primes:"+st.substr(0,st.find(':'))); Z a=value(g,prod); c.note("value",zs(a)); NONTRIVIAL(c,n>=2&&abs(a)>zu(mx)); Z want; mpz_fdiv_r(want.get_mpz_t(),a.get_mpz_t(),prod.get_mpz_t()); std::vector<u64> res(n); for(long i=0;i<n;i++) res[i]=zmod(a,pr[i]); std::vector<ulong> P(pr.begin(),pr.end()),M(res.begin(),res.end()); u64 which=g.draw(3); if(n>260&&which!=2&&g.coin(9,10)) which=2;
  auto eq=[&](const char*w,const std::vector<ulong>&o){ CHECK(o[n]==77,std::string(w)+": wrote beyond the output"); for(long i=0;i<n;i++) CHECK(o[i]==res[i],std::string(w)+": residue modulo "+std::to_string(pr[i])+" is "+std::to_string(o[i])+" instead of "+std::to_string(res[i])); };
  if(which==0){ c.tag("multimod_naive"); fmpz_multimod_naive_t mm; fmpz_multimod_naive_init(mm,P.data(),n); struct Cl{ fmpz_multimod_naive_struct*x; ~Cl(){ fmpz_multimod_naive_clear(x); } } cl{mm}; { FZ p; fmpz_set(p.f,mm->prod); CHECK(p.val()==prod,"fmpz_multimod_naive_init: wrong product"); } int reps=1+(int)g.draw(3); for(int t=0;t<reps;t++){ if(t){ a=value(g,prod); for(long i=0;i<n;i++) res[i]=zmod(a,pr[i]); } FZ A(a); std::vector<ulong> out(n+1,77); fmpz_multimod_naive_reduce(out.data(),A.f,mm); eq("fmpz_multimod_naive_reduce",out); CHECK(A.val()==a,"fmpz_multimod_naive_reduce modified its input"); } }
  else if(which==1){ c.tag("CRT_naive"); fmpz_CRT_naive_t C; fmpz_CRT_naive_init(C,P.data(),n); struct Cl{ fmpz_CRT_naive_struct*x; ~Cl(){ fmpz_CRT_naive_clear(x); } } cl{C}; { FZ p; fmpz_set(p.f,C->prod); CHECK(p.val()==prod,"fmpz_CRT_naive_init: wrong product"); } FZ A(value(g,prod)); fmpz_CRT_naive_CRT(A.f,M.data(),C); Z v=A.val(); CHECK(v==want,"fmpz_CRT_naive_CRT: "+zs(v)+" instead of "+zs(want)); Z s=0; for(long i=0;i<n;i++) s+=zu(res[i])*(prod/zu(pr[i])); FZ B(value(g,prod)); fmpz_CRT_naive_combine(B.f,M.data(),C); CHECK(B.val()==s,"fmpz_CRT_naive_combine: wrong combination"); for(long i=0;i<n;i++) CHECK(M[i]==res[i],"fmpz_CRT_naive modified the residues"); }
  else { c.tag(n>=200?"multimod_CRT(tree)":"multimod_CRT"); fmpz_multimod_CRT_t C; fmpz_multimod_CRT_init(C,P.data(),n); struct Cl{ fmpz_multimod_CRT_struct*x; ~Cl(){ fmpz_multimod_CRT_clear(x); } } cl{C}; { FZ p; fmpz_set(p.f,C->product_primes); CHECK(p.val()==prod,"fmpz_multimod_CRT_init: wrong product"); } int reps=1+(int)g.draw(3); for(int t=0;t<reps;t++){ if(t){ a=value(g,prod); mpz_fdiv_r(want.get_mpz_t(),a.get_mpz_t(),prod.get_mpz_t()); for(long i=0;i<n;i++) M[i]=res[i]=zmod(a,pr[i]); } FZ A(a); std::vector<ulong> out(n+1,77); fmpz_multimod_CRT_reduce(out.data(),A.f,C); eq("fmpz_multimod_CRT_reduce",out); CHECK(A.val()==a,"fmpz_multimod_CRT_reduce modified its input"); FZ B(value(g,prod)); fmpz_multimod_CRT_CRT(B.f,M.data(),C); Z v=B.val(); CHECK(v==want,"fmpz_multimod_CRT_CRT: "+zs(v)+" instead of "+zs(want)); for(long i=0;i<n;i++) CHECK(M[i]==res[i],"fmpz_multimod_CRT_CRT modified the residues"); } } }
static const u64 PR[4]={PRIME0,PRIME1,PRIME2,PRIME3};
static void word(Gen&g,Case&c){ long k=1+(long)g.draw(4); u64 p; switch(g.draw(6)){ case 0: p=2+g.draw(50); break; case 1: p=(1ULL<<50)-5+g.draw(10); break; case 2: p=PR[g.draw(4)]-2+g.draw(5); break; default: { int b=(int)g.range(2,64); u64 lo=1ULL<<(b-1); p=lo+g.draw(lo); if(g.coin(1,6)) p=lo+(lo-1); } } p=std::max<u64>(p,2); long n=g.size(0,40); c.note("p",p); c.note("primes",k); c.note("n",n); c.tag(p<(1ULL<<50)?"p<2^50":"p>=2^50"); NONTRIVIAL(c,k>=2&&n>=1); Z prod=1; for(long i=0;i<k;i++) prod*=zu(PR[i]); Rng q(g.seed32()); u64 st=g.draw(5); std::vector<Z> a(n); for(auto&x:a) switch(st){ case 0: x=prod-1-(long)q.below(3); break; case 1: { long b=(long)q.below(mpz_sizeinbase(prod.get_mpz_t(),2)); x=randz(q,b+1)%prod; break; } case 2: { x=zu(p-1)*zu(p-1)*(1+(long)q.below(1000)); x%=prod; break; } default: x=randz(q,270)%prod; }
  nmod_multimod_CRT_t C; nmod_multimod_CRT_init(C,p,k); struct Cl{ nmod_multimod_CRT_struct*x; ~Cl(){ nmod_multimod_CRT_clear(x); } } cl{C};
  std::vector<std::vector<ulong>> r(k,std::vector<ulong>(n)); std::vector<nn_ptr> pp(4,nullptr); for(long i=0;i<k;i++){ for(long j=0;j<n;j++) r[i][j]=zmod(a[j],PR[i]); pp[i]=r[i].data(); } std::vector<ulong> out(n+1,77); nmod_multimod_CRT_CRT(out.data(),pp.data(),n,C); CHECK(out[n]==77,"nmod_multimod_CRT_CRT: wrote beyond the output"); for(long j=0;j<n;j++){ CHECK(out[j]==zmod(a[j],p),"nmod_multimod_CRT_CRT: entry "+std::to_string(j)+" (value "+zs(a[j])+") is "+std::to_string(out[j])+" instead of "+std::to_string(zmod(a[j],p))); for(long i=0;i<k;i++) CHECK(r[i][j]==zmod(a[j],PR[i]),"nmod_multimod_CRT_CRT modified the residues"); }
#if PML_HAVE_AVX2
  { std::vector<ulong> in(n); for(auto&x:in) switch(st){ case 0: x=p-1; break; case 1: x=q()%std::min<u64>(p,1ULL<<33); break; default: x=q()%p; } auto keep=in; std::vector<std::vector<ulong>> o(k,std::vector<ulong>(n+1,77)); for(long i=0;i<k;i++) pp[i]=o[i].data(); nmod_multimod_CRT_reduce(pp.data(),in.data(),n,C); CHECK(in==keep,"nmod_multimod_CRT_reduce modified its input"); for(long i=0;i<k;i++){ CHECK(o[i][n]==77,"nmod_multimod_CRT_reduce: wrote beyond the output"); for(long j=0;j<n;j++) CHECK(o[i][j]==in[j]%PR[i],"nmod_multimod_CRT_reduce: "+std::to_string(in[j])+" modulo "+std::to_string(PR[i])+" gives "+std::to_string(o[i][j])); } }
#endif
}
static void small(Gen&g,Case&c){ // powers of two, inverses, roots
  { u64 x; switch(g.draw(4)){ case 0: x=g.draw(40); break; case 1: x=(1ULL<<g.draw(64))+g.draw(3)-1; break; default: x=g.draw(1ULL<<(1+g.draw(62))); } if(x>(1ULL<<63)) x=1ULL<<63; c.note("x",x); int e=0; while(e<63&&(1ULL<<e)<x) e++; int r=next_power_of_two(x); CHECK(r==e,"next_power_of_two("+std::to_string(x)+") is "+std::to_string(r)+" instead of "+std::to_string(e)); }
  { u64 p=(g.coin(1,3)?g.draw(1ULL<<20):g.draw(~0ULL))|1; int k=(int)g.range(1,64); c.note("odd",p); c.note("k",k); u64 m=k==64?~0ULL:(1ULL<<k)-1; u64 r=inverse_mod_power_of_two(p,k); CHECK(r<=m,"inverse_mod_power_of_two: not reduced modulo 2^k"); CHECK(((r*p)&m)==(1&m),"inverse_mod_power_of_two("+std::to_string(p)+","+std::to_string(k)+") is "+std::to_string(r)); }
  { u64 p=g.coin(1,3)?nextprime(2+g.draw(60)):nextprime(2+g.draw(1ULL<<(3+g.draw(30)))); u64 n=1+g.draw(std::min<u64>(p+2,g.coin(1,3)?400:20)); c.note("p",p); c.note("order",n); NONTRIVIAL(c,p>=5); ref::P=p; u64 r=nmod_find_root(n,MOD(p)); if(r){ CHECK(r<p,"nmod_find_root: not reduced"); u64 x=1; for(u64 i=1;i<n;i++){ x=ref::mul(x,r); CHECK(x!=1,"nmod_find_root: "+std::to_string(r)+" has order "+std::to_string(i)+", less than "+std::to_string(n)); } } else CHECK(n>=p-1,"nmod_find_root: nothing found although elements of larger order exist"); } }
static void zmatmul(Gen&g,Case&c){
#if PML_HAVE_AVX2
  long m=g.size(0,8),k=g.size(0,8),n=g.size(0,8); if(g.coin(1,4)) m=k=n=1+(long)g.draw(6); long b1=g.pick({1L,5L,30L,62L,63L,64L,65L,200L}),b2=g.pick({0L,1L,20L,61L,64L,128L,500L}); if(g.coin(1,60)){ b1=2900+(long)g.draw(200); b2=2900+(long)g.draw(200); m=std::min(m,2L); n=std::min(n,2L); } c.note("dims",std::to_string(m)+"x"+std::to_string(k)+"x"+std::to_string(n)); c.note("bits",std::to_string(b1)+"+"+std::to_string(b2)); Rng q(g.seed32()); int sg=(int)g.draw(4); u64 st=g.draw(4); auto ent=[&](long b,bool s){ Z x; if(st==0){ x=1; x<<=b; x-=1; } else if(st==1){ x=1; if(b) x<<=(b-1); } else { x=randz(q,b); if(st==2&&q.below(3)) x=0; } if(s&&(st<2||q.below(2))) x=-x; return x; };
  std::vector<Z> A(m*k),B(k*n); for(auto&x:A) x=ent(b1,sg&1); for(auto&x:B) x=ent(b2,sg&2); std::vector<Z> W(m*n,Z(0)); bool nz=false; for(long i=0;i<m;i++) for(long j=0;j<n;j++){ for(long t=0;t<k;t++) W[i*n+j]+=A[i*k+t]*B[t*n+j]; nz|=W[i*n+j]!=0; } NONTRIVIAL(c,m>=2&&k>=2&&n>=2&&nz); c.tag(sg?"signed":"nonnegative");
  struct FZM { fmpz_mat_t m; FZM(long r,long c){ fmpz_mat_init(m,r,c); } ~FZM(){ fmpz_mat_clear(m); } void put(const std::vector<Z>&v){ for(long i=0;i<m->r;i++) for(long j=0;j<m->c;j++) fmpz_set_mpz(fmpz_mat_entry(m,i,j),v[i*m->c+j].get_mpz_t()); } bool eq(const std::vector<Z>&v){ for(long i=0;i<m->r;i++) for(long j=0;j<m->c;j++){ Z x; fmpz_get_mpz(x.get_mpz_t(),fmpz_mat_entry(m,i,j)); if(x!=v[i*m->c+j]) return false; } return true; } };
  FZM a(m,k),b(k,n),w(m,n); a.put(A); b.put(B); std::vector<Z> D(m*n); for(auto&x:D) x=randz(q,100); w.put(D); fmpz_mat_mul_multimod(w.m,a.m,b.m); CHECK(w.eq(W),"fmpz_mat_mul_multimod: wrong product"); CHECK(a.eq(A)&&b.eq(B),"fmpz_mat_mul_multimod modified an operand");
  if(k==n){ FZM t(m,k); t.put(A); fmpz_mat_mul_multimod(t.m,t.m,b.m); CHECK(t.eq(W),"fmpz_mat_mul_multimod: wrong product when the output is the left operand"); } if(m==k){ FZM t(k,n); t.put(B); fmpz_mat_mul_multimod(t.m,a.m,t.m); CHECK(t.eq(W),"fmpz_mat_mul_multimod: wrong product when the output is the right operand"); }
#else
  small(g,c);
#endif
}
std::vector<Sub> SUBS={{"integers",big,40000,500000,200},{"words",word,150000,2000000,1000},{"small",small,200000,2000000,2000},{"zmatmul",zmatmul,30000,500000,300}};
