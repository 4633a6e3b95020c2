// C06: multiple remainders and Chinese remaindering
#include "h.h"
#include "lzz_pX_CRT.h"
using namespace NTL; using ref::Poly;
const char* PROP_RULE="random modulus, 1..40 pairwise coprime squarefree moduli with mixed degrees 1..12 (non-monic included), inputs of degree far below / equal / above the total degree, remainders larger than the moduli; non-trivial: at least 2 moduli";
std::vector<std::string> ASSUMPTIONS={"moduli are pairwise coprime, squarefree and of degree at least 1, as documented"};
std::vector<Known> KNOWN={};
static Poly pdiff(const Poly&a){ Poly d; for(long i=1;i<(long)a.size();i++) d.push_back(ref::mul(a[i],(u64)i%ref::P)); ref::norm(d); return d; }
static void t_crt(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long want=1+(long)g.size(0,30); long md=1+(long)g.draw(8); u64 style=g.draw(3); std::vector<Poly> q; Rng r(g.seed32()); Poly M{1%ref::P}; long fails=0; u64 nx=0;
  while((long)q.size()<want&&fails<30){ long d=style==0?1:1+(long)r.below(md); Poly a(d+1); for(auto&x:a) x=r()%ref::P; if(a[d]==0) a[d]=1; if(style==1) a[d]=1; if(style==0&&ref::P<1000){ a={nx++%ref::P,1}; }
    if(ref::deg(ref::pgcd(a,pdiff(a)))!=0||ref::deg(ref::pgcd(ref::prem(M,a),a))!=0){ fails++; continue; } q.push_back(a); M=ref::pmul(M,a); }
  if(q.empty()) throw Discard(); long n=q.size(),D=ref::deg(M); c.note("n",n); c.note("deg",D); NONTRIVIAL(c,n>=2); c.tag(n==1?"single":(n&(n-1))?"odd-tree":"full-tree");
  PML::zz_pX_CRT C(putpv(q)); CHECK(C.length()==n,"length"); zz_pX t; C.master(t); CHECK(ref::peq(get(t),M),"master polynomial is not the product"); long i0=(long)g.draw(n); C.moduli(t,i0); CHECK(ref::peq(get(t),q[i0]),"moduli() wrong");
  long rounds=1+(long)g.draw(3); for(long k=0;k<rounds;k++){
    Poly a=gen_poly(g,(long)g.draw(g.coin(1,2)?D+1:3*D+2)); c.note("da",ref::deg(a)); Vec<zz_pX> v; zz_pX A=put(a); C.multimod(v,A); auto V=get(v); CHECK((long)V.size()==n,"multimod: wrong length"); for(long i=0;i<n;i++) CHECK(ref::peq(V[i],ref::prem(a,q[i])),"multimod: remainder "+std::to_string(i)+" wrong"); CHECK(ref::peq(get(A),a),"multimod changed its input");
    std::vector<Poly> w; for(long i=0;i<n;i++) w.push_back(gen_poly(g,g.coin(1,4)?ref::deg(q[i])+3:ref::deg(q[i]))); Vec<zz_pX> W=putpv(w); zz_pX F; C.combine(F,W); Poly ff=get(F); CHECK(ref::deg(ff)<D,"combine: degree too large"); for(long i=0;i<n;i++) CHECK(ref::peq(ref::prem(ff,q[i]),ref::prem(w[i],q[i])),"combine: remainder "+std::to_string(i)+" wrong"); for(long i=0;i<n;i++) CHECK(ref::peq(get(W[i]),w[i]),"combine changed its input"); } }
static void t_tree(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=1+g.size(0,40); std::vector<Poly> q; for(long i=0;i<n;i++) q.push_back(gen_poly(g,1+(long)g.draw(6))); c.note("n",n); NONTRIVIAL(c,n>=2); Vec<Vec<zz_pX>> T; PML::build_subproduct_tree(T,putpv(q)); long d=T.length(); CHECK(d>=1&&T[0].length()==n&&T[d-1].length()==1,"tree shape"); std::vector<Poly> cur=q; for(long l=0;l<d;l++){ auto L=get(T[l]); CHECK(L.size()==cur.size(),"tree level size"); for(size_t i=0;i<L.size();i++) CHECK(ref::peq(L[i],cur[i]),"tree node is not the product of its children"); std::vector<Poly> nx; for(size_t i=0;i+1<cur.size();i+=2) nx.push_back(ref::pmul(cur[i],cur[i+1])); if(cur.size()&1) nx.push_back(cur.back()); cur=nx; } }
// many moduli: NTL remainders as the oracle
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long n=llen(g,31,400),md=g.coin(1,2)?1+(long)g.draw(3):1+(long)g.draw(20); Rng q(g.seed32()); Vec<zz_pX> Q; Q.SetLength(n); zz_pX M; set(M); for(long i=0;i<n;i++){ long d=1+(long)q.below(md); do{ Q[i].rep.SetLength(d+1); for(long j=0;j<=d;j++) Q[i].rep[j]=Z(q()%ref::P); Q[i].normalize(); } while(deg(Q[i])!=d||deg(GCD(Q[i],diff(Q[i])))!=0); mul(M,M,Q[i]); } c.note("n",n); c.note("deg",deg(M)); if(deg(GCD(M,diff(M)))!=0) throw Discard(); NONTRIVIAL(c,true);
  PML::zz_pX_CRT C(Q); zz_pX t; C.master(t); CHECK(t==M,"master polynomial is not the product"); zz_pX a=lpoly(g,g.coin(1,3)?2*deg(M):deg(M)); Vec<zz_pX> v; C.multimod(v,a); CHECK(v.length()==n,"multimod: wrong length"); for(long i=0;i<n;i++) CHECK(v[i]==a%Q[i],"multimod: remainder "+std::to_string(i)+" wrong"); zz_pX F; C.combine(F,v); CHECK(F==a%M,"combine is not the inverse of multimod"); }
std::vector<Sub> SUBS={{"crt",t_crt,40000,1200000,100},{"subproduct_tree",t_tree,20000,600000,200},{"long",t_long,200,5000,20}};
