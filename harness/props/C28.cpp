// C28: sequences over K[x]/x^d: products, annihilators
#include "bases.h"
#include "lzz_pX_seq.h"
const char* PROP_RULE="(1) products of scalar and module sequences by univariate and bivariate polynomials, truncated or not, sums, first non-zero index, zero test and check_cancel against their definitions; (2) kurakin and modified_kurakin + fill_in, scalar and module: for every t < d the generator of leading coefficient of valuation t (for modified_kurakin: of valuation at most t) has the minimal y-degree (reference: linear algebra over K) and cancels all terms of the sequence, whenever that degree is below the length; (3) berlekamp_massey_pmbasis, its module, hnf and compressed versions: the rows generate all polynomials of y-degree at most half the length which cancel the sequence (Hankel matrix approximants, determinant degree = codimension); (4) minpoly_nondegenerate: the unique monic polynomial of degree half the length; sequences are linear recurrent of every order, multiplied by powers of x, with leading zero terms, zero, sparse or arbitrary; non-trivial: length at least 3, d at least 2 and a non-zero sequence";
std::vector<std::string> ASSUMPTIONS={"terms of a sequence are reduced modulo x^d and d >= 1","modified_kurakin's output is completed by fill_in as documented","berlekamp_massey functions: at least two terms and an output list that is empty on entry, since they append","the compressed version is Monte Carlo: p above 2^33","minpoly_nondegenerate: the Hankel matrix of the constant terms is invertible","generate_right_seq is not defined in the library"};
std::vector<Known> KNOWN={};
typedef std::vector<Poly> Seq; typedef std::vector<Seq> MSeq;   // MSeq[i] = i-th term, a vector of length tau
typedef std::vector<Poly> BP;                                    // coefficients in y
static Vec<Vec<zz_pX>> putms(const MSeq&S){ Vec<Vec<zz_pX>> r; r.SetLength(S.size()); for(size_t i=0;i<S.size();i++) r[i]=putpv(S[i]); return r; }
static zz_pXY putb(const BP&f){ Vec<zz_pX> v=putpv(f); zz_pXY r(v); r.normalize(); return r; }
static BP getb(const zz_pXY&f){ BP r=get(f.rep); CHECK(r.empty()||ref::deg(r.back())>=0,"bivariate polynomial not normalized"); return r; }
static MSeq rmul(const MSeq&S,const BP&f,long d){ MSeq R; long dy=(long)f.size()-1; for(long i=0;i+dy<(long)S.size();i++){ Seq T(S[i].size()); for(size_t j=0;j<T.size();j++) for(long t=0;t<=dy;t++){ Poly q=ref::pmul(f[t],S[i+t][j]); if(d>=0) q=ref::ptrunc(q,d); T[j]=ref::padd(T[j],q); } R.push_back(T); } return R; }
static bool allzero(const MSeq&S){ for(auto&t:S) for(auto&p:t) if(ref::deg(p)>=0) return false; return true; }
static MSeq one(const Seq&S){ MSeq R; for(auto&p:S) R.push_back(Seq{p}); return R; }
static Seq flat(const MSeq&S){ Seq R; for(auto&t:S) R.push_back(t[0]); return R; }
static MSeq gms(const Vec<Vec<zz_pX>>&v){ MSeq R; for(long i=0;i<v.length();i++) R.push_back(get(v[i])); return R; }
static bool seq_eq(const MSeq&a,const MSeq&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++){ if(a[i].size()!=b[i].size()) return false; for(size_t j=0;j<a[i].size();j++) if(!ref::peq(a[i][j],b[i][j])) return false; } return true; }
static Poly rp(Rng&q,long d){ Poly p(d); for(auto&x:p) x=q()%ref::P; ref::norm(p); return p; }
// sequence of n terms in (K[x]/x^d)^tau
static MSeq gen_seq(Gen&g,Case&c,long n,long d,long tau){ MSeq S(n,Seq(tau)); u64 st=g.draw(9); Rng q(g.seed32()); long D=0; const char*nm="";
  auto rec=[&](long D,bool small){ BP f(D); for(auto&p:f){ p=small?(q.below(2)?ref::pshl(rp(q,1),(long)q.below(d+1)):Poly()):rp(q,d); p=ref::ptrunc(p,d); } for(long i=0;i<n;i++) for(long j=0;j<tau;j++){ if(i<D){ if(!small||q.below(2)) S[i][j]=rp(q,d); } else { Poly t; for(long k=0;k<D;k++) t=ref::padd(t,ref::ptrunc(ref::pmul(f[k],S[i-D+k][j]),d)); S[i][j]=ref::pneg(t); } } };
  switch(st){ case 0: nm="zero"; break; case 1: nm="sparse"; for(auto&t:S) for(auto&p:t) if(q.below(3)==0) p=rp(q,d); break;
   case 2: case 3: nm="recurrent"; D=1+(long)q.below(std::max<long>(1,n/2)); rec(D,false); break;
   case 4: nm="recurrent-special"; D=1+(long)q.below(std::max<long>(1,n/2)); rec(D,true); break;
   case 5: { nm="xmultiples"; D=1+(long)q.below(std::max<long>(1,n/2)); rec(D,false); MSeq T=S; long v=(long)q.below(d+1); for(auto&t:T) for(auto&p:t) p=ref::ptrunc(ref::pshl(p,v),d); if(q.below(2)){ rec(1+(long)q.below(std::max<long>(1,n/3)),false); for(long i=0;i<n;i++) for(long j=0;j<tau;j++) T[i][j]=ref::padd(T[i][j],S[i][j]); } S=T; break; }
   case 6: { nm="monomials"; for(auto&t:S) for(auto&p:t) p=ref::ptrunc(ref::pshl(rp(q,1),(long)q.below(d+1)),d); break; }
   case 7: { nm="leadzeros"; long z=(long)q.below(n+1); for(long i=z;i<n;i++) for(auto&p:S[i]) p=rp(q,d); break; }
   default: nm="random"; for(auto&t:S) for(auto&p:t) p=rp(q,d); }
  c.note("n",n); c.note("d",d); c.note("tau",tau); c.note("style",nm); c.tag(std::string("seq:")+nm); std::string o; for(size_t i=0;i<S.size()&&i<8;i++){ for(auto&p:S[i]) o+=ref::pstr(p); o+=" "; } c.note("S",o); NONTRIVIAL(c,n>=3&&d>=2&&!allzero(S)); return S; }
static BP gen_bp(Gen&g,long dy,long dx){ BP f; u64 st=g.draw(4); Rng q(g.seed32()); for(long i=0;i<=dy;i++) f.push_back(st==0&&q.below(2)?Poly():rp(q,1+(long)q.below(dx))); while(!f.empty()&&ref::deg(f.back())<0) f.pop_back(); return f; }
static void t_mul(Gen&g,Case&c){ Field fl=gen_field(g); note_field(c,fl); long n=g.size(0,14),d=1+g.size(0,12),tau=1+(long)g.draw(3); MSeq S=gen_seq(g,c,n,d,tau),T=gen_seq(g,c,g.coin(1,2)?n:g.size(0,14),d,tau); Poly a=gen_poly(g,(long)g.draw(d+3)); BP f=gen_bp(g,(long)g.draw(g.coin(1,4)?n+3:4),d); long e=1+(long)g.draw(d+3); Vec<zz_pX> s0=putpv(flat(S)),t0=putpv(flat(T)); Vec<Vec<zz_pX>> sm=putms(S),tm=putms(T); BP fa{a}; if(ref::deg(a)<0) fa[0]=Poly();
  auto ck=[&](const MSeq&got,const MSeq&ex,const char*w,bool zero){ if(zero) CHECK(allzero(got),std::string(w)+": multiple by zero is not zero"); else CHECK(seq_eq(got,ex),std::string(w)+": wrong sequence, length "+std::to_string(got.size())+" expected length "+std::to_string(ex.size())); };
  MSeq S1=one(flat(S)); bool fz=f.empty(); BP F=f; if(fz) F=BP{Poly()};
  ck(one(get(mul(s0,put(a)))),rmul(S1,fa,-1),"mul(seq,poly)",false); ck(gms(mul(sm,put(a))),rmul(S,fa,-1),"mul(module seq,poly)",false);
  ck(one(get(mulTrunc(s0,put(a),e))),rmul(S1,fa,e),"mulTrunc(seq,poly)",false); ck(gms(mulTrunc(sm,put(a),e)),rmul(S,fa,e),"mulTrunc(module seq,poly)",false);
  ck(one(get(mul(s0,putb(f)))),rmul(S1,F,-1),"mul(seq,bivariate)",fz); ck(gms(mul(sm,putb(f))),rmul(S,F,-1),"mul(module seq,bivariate)",fz);
  ck(one(get(mulTrunc(s0,putb(f),e))),rmul(S1,F,e),"mulTrunc(seq,bivariate)",fz); ck(gms(mulTrunc(sm,putb(f),e)),rmul(S,F,e),"mulTrunc(module seq,bivariate)",fz);
  MSeq A; for(size_t i=0;i<std::min(S.size(),T.size());i++){ Seq t; for(long j=0;j<tau;j++) t.push_back(ref::padd(S[i][j],T[i][j])); A.push_back(t); } ck(gms(add(sm,tm)),A,"add(module seq)",false); ck(one(get(add(s0,t0))),one(flat(A)),"add(seq)",false);
  CHECK(is_zero_seq(s0)==allzero(S1),"is_zero_seq wrong"); long k=0; while(k<n&&ref::deg(S1[k][0])<0) k++; long got=index_non_zero(s0); if(n>0) CHECK(got==k,"index_non_zero gives "+std::to_string(got)+" instead of "+std::to_string(k));
  Vec<zz_pXY> G; bool w1=true,w2=true,w3=true,w4=true; long ng=(long)g.draw(3); for(long i=0;i<ng;i++){ BP h=g.coin(1,2)?f:gen_bp(g,(long)g.draw(3),d); if(g.coin(1,2)) for(auto&p:h) p=ref::pshl(p,d); G.append(putb(h)); BP H=h.empty()?BP{Poly()}:h; w1&=allzero(rmul(S1,H,-1)); w2&=allzero(rmul(S1,H,e)); w3&=allzero(rmul(S,H,-1)); w4&=allzero(rmul(S,H,e)); }
  CHECK(check_cancel(s0,G)==w1,"check_cancel(seq) wrong"); CHECK(check_cancel(s0,G,e)==w2,"check_cancel(seq,d) wrong"); CHECK(check_cancel(sm,G)==w3,"check_cancel(module seq) wrong"); CHECK(check_cancel(sm,G,e)==w4,"check_cancel(module seq,d) wrong"); }
// smallest D <= n such that some x^t y^D + (lower) cancels the n terms modulo x^d
static long mindeg(const MSeq&S,long d,long t,long from){ long n=S.size(),tau=n?S[0].size():1; for(long D=from;D<n;D++){ long eq=(n-D)*tau*d; CMat M(D*d+1,eq); for(long i=0;i+D<n;i++) for(long j=0;j<tau;j++){ long off=(i*tau+j)*d; for(long k=0;k<D;k++) for(long e=0;e<d;e++) for(long u=e;u<d;u++) M.at(k*d+e,off+u)=ref::coef(S[i+k][j],u-e); for(long u=t;u<d;u++) M.at(D*d,off+u)=ref::coef(S[i+D][j],u-t); } CMat B(D*d,eq); std::copy(M.a.begin(),M.a.begin()+D*d*eq,B.a.begin()); if(ref::crank(M)==ref::crank(B)) return D; } return n; }
static void ck_gens(const Vec<zz_pXY>&G,const MSeq&S,long d,const VL&md,const std::string&w,bool full){ long n=S.size(),run=1L<<40; CHECK(G.length()==d,w+": number of generators"); for(long t=0;t<d;t++){ BP f=getb(G[t]); for(auto&p:f) p=ref::ptrunc(p,d); while(!f.empty()&&ref::deg(f.back())<0) f.pop_back(); if(md[t]>=n) continue; std::string o=w+": generator "+std::to_string(t)+" "; CHECK(!f.empty(),o+"is zero"); run=std::min(run,(long)f.size()-1); CHECK((full?(long)f.size()-1:run)==md[t],o+"has y-degree "+std::to_string((long)f.size()-1)+" instead of "+std::to_string(md[t])); long v=0; while(ref::coef(f.back(),v)==0) v++; CHECK(v==t,o+"has leading coefficient of valuation "+std::to_string(v)); CHECK(allzero(rmul(S,f,d)),o+"does not cancel the sequence"); } }
static void kur(Gen&g,Case&c,bool mod){ Field fl=gen_field(g); note_field(c,fl); long d=1+g.size(0,mod?5:7),tau=mod?1+(long)g.draw(3):1,n=1+g.size(0,(mod?60:100)/(d*tau)<4?4:std::min<long>(12,(mod?60:100)/(d*tau))); MSeq S=gen_seq(g,c,n,d,tau); VL md(d); for(long t=d-1;t>=0;t--) md[t]=mindeg(S,d,t,t+1<d?md[t+1]:0); c.note("mindeg",vstr(md)); Vec<zz_pXY> G; if(g.coin(1,3)) G.append(putb(gen_bp(g,3,3))); Vec<zz_pXY> G2=G; if(mod) kurakin(d,putms(S),G); else kurakin(d,putpv(flat(S)),G); ck_gens(G,S,d,md,"kurakin",true); if(mod) modified_kurakin(d,putms(S),G2); else modified_kurakin(d,putpv(flat(S)),G2); fill_in(d,G2); ck_gens(G2,S,d,md,"modified_kurakin",false); }
static void t_kur(Gen&g,Case&c){ kur(g,c,false); }
static void t_kurm(Gen&g,Case&c){ kur(g,c,true); }
static void t_bm(Gen&g,Case&c){ u64 alg=g.draw(4); Field fl=alg==3?gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33):gen_field(g); note_field(c,fl); long d=1+g.size(0,10),tau=alg==0?1:1+(long)g.draw(3),n=2+g.size(0,12); MSeq S=gen_seq(g,c,n,d,tau); Vec<zz_pXY> G; const char*nm[]={"berlekamp_massey_pmbasis","berlekamp_massey_pmbasis(module)","berlekamp_massey_pmbasis_hnf","berlekamp_massey_pmbasis_compressed"}; c.tag(std::string("alg:")+nm[alg]); switch(alg){ case 0: berlekamp_massey_pmbasis(d,putpv(flat(S)),G); break; case 1: berlekamp_massey_pmbasis(d,putms(S),G); break; case 2: berlekamp_massey_pmbasis_hnf(d,putms(S),G); break; default: berlekamp_massey_pmbasis_compressed(d,putms(S),G); }
  long e=n/2; PMat H(e+1,e*tau),B(e+1,e+1); for(long s=0;s<tau;s++) for(long j=0;j<e;j++) for(long i=0;i<=e;i++) H.at(i,j+s*e)=S[i+j][s]; CHECK(G.length()==e+1,std::string(nm[alg])+": number of generators"); VL sh(e+1,0); if(alg==2) for(long i=0;i<=e;i++) sh[i]=i*d; for(long i=0;i<=e;i++){ BP f=getb(G[i]); CHECK((long)f.size()<=e+1,std::string(nm[alg])+": y-degree above half the length"); for(size_t j=0;j<f.size();j++) B.at(i,j)=f[j]; } ck_app(B,H,VL(e*tau,d),sh,2,rrdeg(B,sh),nm[alg]); }
static void t_min(Gen&g,Case&c){ Field fl=gen_field(g); note_field(c,fl); long d=1+g.size(0,12),n=1+g.size(0,g.coin(1,4)?30:8); MSeq S=gen_seq(g,c,2*n+(long)g.draw(2),d,1); CMat H0(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++) H0.at(i,j)=ref::coef(S[i+j][0],0); if(ref::cdet(H0)==0) throw Discard(); zz_pXY P; if(g.coin(1,2)) P=putb(gen_bp(g,3,3)); minpoly_nondegenerate(d,putpv(flat(S)),P); BP f=getb(P); CHECK((long)f.size()-1==n,"minpoly_nondegenerate: y-degree"); CHECK(ref::peq(f.back(),Poly{1%ref::P}),"minpoly_nondegenerate: not monic"); for(auto&p:f) CHECK(ref::deg(p)<d,"minpoly_nondegenerate: not reduced modulo x^d"); S.resize(2*n); CHECK(allzero(rmul(S,f,d)),"minpoly_nondegenerate: does not cancel the sequence"); }
std::vector<Sub> SUBS={{"products",t_mul,30000,600000,50},{"kurakin",t_kur,10000,200000,20},{"kurakin-module",t_kurm,6000,120000,20},{"berlekamp-massey",t_bm,12000,240000,20},{"minpoly",t_min,12000,240000,20}};
