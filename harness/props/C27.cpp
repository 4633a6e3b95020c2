// C27: block sequences and matrix fraction reconstruction
#include "bases.h"
#include "mat_lzz_pX_sequence.h"
const char* PROP_RULE="(1) gen_pows: powers t*a^(s*i) mod g by reference modular arithmetic, and the upper products as the series product with 1/rev(g) reversed, degrees 2..400, with and without the upper products; (2) gen_sequence: every coefficient of x^i*a^k mod g, block sizes 1..deg g, moduli with non-zero constant term, monic or not; special a (zero, constant, sparse, dense), every prime size with more than 8m elements; (3) matrix_recon_interpolation / _geometric: denominators D (random row-reduced with prescribed row degrees) and numerators N over primes above 2^33, from the values of D^-1 N at at least twice the degree points: result ordered weak Popov and equal to a unimodular multiple of D; (4) matrix_recon_approximation: same from the series expansion of generic fractions, D recovered exactly in Popov form; non-trivial: degree of g at least 3 (1,2), dimension at least 2 (3,4)";
std::vector<std::string> ASSUMPTIONS={"a and t are reduced modulo g, deg g >= 2","gen_sequence: g(0) non-zero, block size at most deg g, field large enough for the 4m evaluation points it uses","reconstruction: points distinct, denominators invertible at the points, generic fraction (matrix_recon_approximation is built on the generic Pade algorithm)","get_sequence_naive is declared but not defined in the library"};
std::vector<Known> KNOWN={};
static Poly gen_g(Gen&g,long n,bool unit){ Rng q(g.seed32()); Poly p(n+1); u64 st=g.draw(3); for(auto&x:p) x=st==2?(q.below(3)==0?q()%ref::P:0):q()%ref::P; p[n]=g.coin(1,2)?1%ref::P:1+q()%(ref::P-1); if(unit&&p[0]==0) p[0]=1%ref::P; return p; }
static Poly gen_a(Gen&g,long n){ switch(g.draw(6)){ case 0: return Poly(); case 1: { Poly a{g.draw(ref::P)}; ref::norm(a); return a; } case 2: { Poly a(1+(size_t)g.draw(n),0); a.back()=1%ref::P; return a; } default: return gen_dense(g,n); } }
static Poly mulmod(const Poly&a,const Poly&b,const Poly&g){ return ref::prem(ref::pmul(a,b),g); }
static void t_pows(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=2+g.size(0,g.coin(1,4)?(g.coin(1,3)?400:120):20); long l=1+(long)g.draw(6),s=(long)g.draw(g.coin(1,4)?20:4); bool up=g.coin(1,2); Poly G=gen_g(g,n,false),a=gen_a(g,n),t=gen_a(g,n); c.note("n",n); c.note("l",l); c.note("s",s); c.note("upper",up); NONTRIVIAL(c,n>=3&&ref::deg(a)>=1&&ref::deg(t)>=0); Vec<zz_pX> pw,u; if(g.coin(1,2)) pw.SetLength(3,put(gen_dense(g,3))); if(g.coin(1,2)) u.SetLength(2,put(gen_dense(g,3))); gen_pows(pw,u,put(t),put(a),s,put(G),l,up); CHECK(pw.length()==l,"number of powers"); Poly as{1%ref::P}; for(long i=0;i<s;i++) as=mulmod(as,a,G); Poly cur=t; Poly S=up?ref::pinvser(ref::prev(G,n),n-1):Poly(); if(up) CHECK(u.length()==l,"number of upper products"); for(long i=0;i<l;i++){ CHECK(ref::peq(get(pw[i]),cur),"power "+std::to_string(i)+" wrong"); if(up){ Poly w=ref::ptrunc(ref::pmul(S,ref::prev(cur,n-1)),n-1); CHECK(ref::peq(get(u[i]),w),"upper product "+std::to_string(i)+" wrong"); } cur=mulmod(cur,as,G); } }
static void t_seq(Gen&g,Case&c){ long n=2+g.size(0,g.coin(1,6)?120:14),m=1+(long)g.draw(g.coin(1,2)?std::min(n,4L):std::min(n,24L)); Field f=gen_field(g,F_ALL,8*m+8); note_field(c,f); Poly G=gen_g(g,n,true),a=gen_a(g,n); c.note("n",n); c.note("m",m); c.note("dega",ref::deg(a)); NONTRIVIAL(c,n>=3&&ref::deg(a)>=1); Vec<Mat<zz_p>> S; { Quiet q; gen_sequence(S,put(a),put(G),m); } long d=2*((n+m-1)/m)+1; CHECK(S.length()==d,"length "+std::to_string(S.length())+" instead of "+std::to_string(d)); Poly pw{1%ref::P}; for(long k=0;k<d;k++){ CMat M=get(S[d-1-k]); CHECK(M.r==m&&M.c==m,"shape"); Poly t=pw; for(long i=0;i<m;i++){ for(long j=0;j<m;j++) CHECK(M.at(i,j)==ref::coef(t,j),"coefficient "+std::to_string(j)+" of x^"+std::to_string(i)+" a^"+std::to_string(k)+" wrong"); t=mulmod(t,Poly{0,1%ref::P},G); } pw=mulmod(pw,a,G); } }
static PMat madj(const PMat&A){ long n=A.r; PMat R(n,n); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ PMat S(n-1,n-1); for(long a=0,x=0;a<n;a++) if(a!=i){ for(long b=0,y=0;b<n;b++) if(b!=j) S.at(x,y++)=A.at(a,b); x++; } Poly d=ref::mdet(S); R.at(j,i)=(i+j)&1?ref::pneg(d):d; } return R; }
static void t_int(Gen&g,Case&c){ bool geo=g.coin(1,2); Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long m=1+g.size(0,4),d=1+g.size(0,6); PMat D=gen_popov(g,m,m,VL(m,0),d,false),N(m,m); VL rd=rrdeg(D,VL(m,0)); Rng q(g.seed32()); long dm=0; for(long i=0;i<m;i++){ dm=std::max(dm,rd[i]); for(long j=0;j<m;j++){ Poly p(rd[i]); for(auto&x:p) x=q()%ref::P; ref::norm(p); N.at(i,j)=p; } } long len=2*dm+1+(long)g.draw(4); c.note("m",m); c.note("rdeg",vstr(rd)); c.note("points",len); c.note("geometric",geo); c.tag(geo?"alg:geometric":"alg:general"); NONTRIVIAL(c,m>=2&&dm>=1); ref::Vec pts(len); u64 r=0; if(geo){ r=gen_ratio(g,2*len); if(!r) throw Discard(); u64 r2=ref::mul(r,r),x=1; for(long i=0;i<len;i++){ pts[i]=x; x=ref::mul(x,r2); } } else pts=gen_pts(g,len); Vec<Mat<zz_p>> E; E.SetLength(len); Vec<zz_p> vp; vp.SetLength(len); for(long k=0;k<len;k++){ CMat I; if(!ref::cinv(I,ref::meval(D,pts[k]))) throw Discard(); E[k]=put(ref::cmul(I,ref::meval(N,pts[k]))); vp[k]=to_zz_p((long)pts[k]); } Mat<zz_pX> B=outm(g,m,m); if(geo){ zz_p rr=to_zz_p((long)r); matrix_recon_interpolation_geometric(B,vp,rr,E); } else matrix_recon_interpolation(B,vp,E); PMat b=get(B); std::string w=geo?"matrix_recon_interpolation_geometric":"matrix_recon_interpolation"; CHECK(b.r==m&&b.c==m,w+": shape"); CHECK(f_ord(b,VL(m,0)),w+": not ordered weak Popov"); Poly dt=ref::mdet(D); CHECK(ref::deg(ref::mdet(b))==ref::deg(dt),w+": determinant of degree "+std::to_string(ref::deg(ref::mdet(b)))+" instead of "+std::to_string(ref::deg(dt))); PMat U=ref::mmul(b,madj(D)); for(auto&p:U.a) CHECK(ref::deg(ref::prem(p,dt))<0,w+": not a denominator of the fraction"); }
static void t_app(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33); note_field(c,f); long m=1+g.size(0,5),d=1+g.size(0,g.coin(1,4)?20:6); Rng q(g.seed32()); PMat D(m,m),N(m,m); for(long i=0;i<m;i++) for(long j=0;j<m;j++){ Poly p(d),n(d); for(auto&x:p) x=q()%ref::P; for(auto&x:n) x=q()%ref::P; if(i==j) p.push_back(1); ref::norm(p); ref::norm(n); D.at(i,j)=p; N.at(i,j)=n; } long L=2*d; c.note("m",m); c.note("d",d); NONTRIVIAL(c,m>=2); CMat I0; if(!ref::cinv(I0,ref::mcoef(D,0))) throw Discard(); std::vector<CMat> S(L); Vec<Mat<zz_p>> seq; seq.SetLength(L); for(long k=0;k<L;k++){ CMat R=ref::mcoef(N,k); for(long j=1;j<=std::min(k,d);j++) R=ref::csub(R,ref::cmul(ref::mcoef(D,j),S[k-j])); S[k]=ref::cmul(I0,R); seq[k]=put(S[k]); } Mat<zz_pX> B=outm(g,m,m); matrix_recon_approximation(B,seq); ckm(B,D,"denominator reconstructed"); }
std::vector<Sub> SUBS={{"powers",t_pows,20000,400000,20},{"sequence",t_seq,20000,400000,20},{"interpolation",t_int,15000,300000,20},{"approximation",t_app,10000,200000,20}};
