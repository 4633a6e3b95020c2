// C12: structured polynomial matrices
#include "h.h"
#include "structured_lzz_pX.h"
using namespace NTL; using namespace PML; using ref::Poly; using ref::PMat;
const char* PROP_RULE="random class (lower triangular Toeplitz, circulant row, Toeplitz-like minus, Sylvester over F_p[x]), dimension 1..40, entry degrees 0..60, zero/sparse/unequal-degree entries; exact and truncated products on both sides of vectors and matrices (aliased/dirty outputs, operands of degree below/equal/above the prepared degree, interleaved prepare_degree calls) compared with the dense matrix built from the definition; Sylvester generators and truncated inverses (Newton and high-precision lifting) verified by M * iM = I mod x^m; non-trivial: non-zero matrix with at least 2 entries";
std::vector<std::string> ASSUMPTIONS={"dimensions at least 1, truncation orders at least 1; Sylvester inverse: leading y-coefficients do not vanish at x=0, both y-degrees at least 1 and the matrix is invertible at x=0 (documented error otherwise)"};
std::vector<Known> KNOWN={};
typedef std::vector<Poly> PV;
static std::string at2(long i,long j){ return " at entry ("+std::to_string(i)+","+std::to_string(j)+")"; }
static void ckm(const PMat&got,const PMat&want,const std::string&w){ CHECK(got.r==want.r&&got.c==want.c,w+": wrong shape"); for(long i=0;i<got.r;i++) for(long j=0;j<got.c;j++) CHECK(ref::peq(got.at(i,j),want.at(i,j)),w+" wrong"+at2(i,j)); }
static void ckv(const PV&got,const PMat&want,const std::string&w){ CHECK((long)got.size()==(long)want.a.size(),w+": wrong length "+std::to_string(got.size())); for(size_t i=0;i<got.size();i++) CHECK(ref::peq(got[i],want.a[i]),w+" wrong at entry "+std::to_string(i)); }
static PV gen_pv(Gen&g,long n,long d){ PMat A=gen_pmat(g,n,1,d); return A.a; }
static PMat col(const PV&v){ PMat A(v.size(),1); A.a=v; return A; }
static PMat row(const PV&v){ PMat A(1,v.size()); A.a=v; return A; }
static Mat<zz_pX> dirtyp(Gen&g,long r,long c){ return put(gen_pmat_dense(g,r,c,3)); }
template<class M> void ops(Gen&g,Case&c,const M&m,const PMat&D,long dmax,int depth=0){
  bool nz=ref::mdeg(D)>=0; NONTRIVIAL(c,nz&&D.r*D.c>=2); if(depth==0&&g.coin(1,6)){ M t; CHECK(t.NumRows()==0&&t.NumCols()==0,"a default-constructed matrix is not empty"); c.note("op","assign"); { M u(m); t=u; } ops(g,c,t,D,dmax,1); }
  { long o=(long)g.draw(9); static const char*nm[]={"mulr","mull","mulrt","mullt","mulrm","mullm","mulrtm","mulltm","dense"}; c.note("op",nm[o]);
    long d=g.size(0,dmax), s=g.size(1,2*dmax+2); bool rt=(o%2==0), tr=(o%4)>=2; c.note("deg",d-1); if(o<8&&tr) c.note("s",s);
    if(o==8){ CHECK(m.NumRows()==D.r&&m.NumCols()==D.c,"wrong dimensions announced"); Mat<zz_pX> X; u64 k=g.draw(3); if(k==1) X=dirtyp(g,D.r,D.c); else if(k==2) X=dirtyp(g,1+(long)g.draw(4),1+(long)g.draw(4)); m.to_dense(X); ckm(get(X),D,"to_dense"); }
    else if(o<4){ PV v=gen_pv(g,rt?D.c:D.r,d); PMat W=rt?ref::mmul(D,col(v)):ref::mmul(row(v),D); if(tr) W=ref::mtrunc(W,s); Vec<zz_pX> V=putpv(v),O; bool al=g.coin(1,3); if(!al&&g.coin(1,3)) O=putpv(gen_pv(g,rt?D.r:D.c,3)); Vec<zz_pX>&R=al?V:O;
      const structured_lzz_pX&b=m; if(g.coin(1,4)){ if(rt) R=tr?b.mul_right_trunc(V,s):b.mul_right(V); else R=tr?b.mul_left_trunc(V,s):b.mul_left(V); } else if(rt){ if(tr) m.mul_right_trunc(R,V,s); else m.mul_right(R,V); } else { if(tr) m.mul_left_trunc(R,V,s); else m.mul_left(R,V); }
      if(!al) ckv(get(V),rt?col(v):row(v),"input vector after product"); ckv(get(R),W,nm[o]); }
    else { long q=g.size(1,4); PMat A=rt?gen_pmat(g,D.c,q,d):gen_pmat(g,q,D.r,d); PMat W=rt?ref::mmul(D,A):ref::mmul(A,D); if(tr) W=ref::mtrunc(W,s); Mat<zz_pX> V=put(A),O; bool al=g.coin(1,3); if(!al&&g.coin(1,3)) O=dirtyp(g,W.r,W.c); Mat<zz_pX>&R=al?V:O;
      const structured_lzz_pX&b=m; if(g.coin(1,4)){ if(rt) R=tr?b.mul_right_trunc(V,s):b.mul_right(V); else R=tr?b.mul_left_trunc(V,s):b.mul_left(V); } else if(rt){ if(tr) m.mul_right_trunc(R,V,s); else m.mul_right(R,V); } else { if(tr) m.mul_left_trunc(R,V,s); else m.mul_left(R,V); }
      ckm(get(R),W,nm[o]); } } }
static void sizes(Gen&g,Case&c,long&n,long&d){ if(g.coin(1,4)){ n=g.size(1,40); d=g.size(0,12); } else if(g.coin(1,4)){ n=g.size(1,6); d=g.size(0,60); } else { n=g.size(1,6); d=g.size(0,6);} c.note("n",n); c.note("d",d-1); }
template<class M> void hist(Gen&g,Case&c,M&m,const PMat&D,long dm){ long k=1+(long)g.draw(4); for(long i=0;i<k;i++){ if(g.coin(1,3)){ long e=(long)g.draw(dm+2); c.note("prepare",e); m.prepare_degree(e); } ops(g,c,m,D,dm); } }
static void t_ltt(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n,d; sizes(g,c,n,d); PV v=gen_pv(g,n,d); PMat D(n,n); for(long i=0;i<n;i++) for(long j=0;j<=i;j++) D.at(i,j)=v[i-j]; lower_triangular_toeplitz_lzz_pX M(putpv(v)); hist(g,c,M,D,std::max<long>(d,4)); }
static void t_circ(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m,d; sizes(g,c,m,d); long n=g.coin(1,2)?m:g.size(1,40); c.note("rows",n); PV v=gen_pv(g,m,d); PMat D(n,m); for(long i=0;i<n;i++) for(long j=0;j<m;j++) D.at(i,j)=v[((i-j-1)%m+m)%m]; circulant_row_lzz_pX M(putpv(v),n); hist(g,c,M,D,std::max<long>(d,4)); }
static PMat refZ(long n,u64 lam){ PMat Z0(n,n); for(long i=1;i<n;i++) Z0.at(i,i-1)=Poly{1%ref::P}; if(lam) Z0.at(0,n-1)=Poly{lam}; return Z0; }
// dense M with Z0 M - M Z1 = G H^t (square n)
static PMat tlm(const PMat&G,const PMat&H){ long m=G.r,n=H.r; PMat R=ref::mmul(G,ref::mtr(H)); // (Z0 M)[i][j]=M[i-1][j]; (M Z1)[i][j]=M[i][(j+1)%n]
  PMat M(m,n); for(long i=0;i<m;i++) for(long j=0;j<n;j++){ Poly t=i>0?M.at(i-1,j):Poly(); M.at(i,(j+1)%n)=ref::psub(t,R.at(i,j)); } return M; }
static void t_tlm(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n,d; sizes(g,c,n,d); if(n>16) n=16; long m=g.coin(1,3)?g.size(1,16):n, a=g.size(0,3); c.note("rows",m); c.note("gens",a); PMat G=gen_pmat(g,m,a,d),H=gen_pmat(g,n,a,d); PMat D=tlm(G,H); if(a==0) throw Discard(); toeplitz_like_minus_lzz_pX M(put(G),put(H)); CHECK(M.NumGens()==a,"NumGens"); long k=1+(long)g.draw(3); for(long i=0;i<k;i++) ops(g,c,M,D,std::max<long>(d,4)); }
static void gen_ab(Gen&g,Case&c,PV&A,PV&B,long mx,long lo,long d,bool nz0){ long da=g.size(lo,mx),db=g.size(lo,mx); if(da+db==0) da=1; A=gen_pv(g,da+1,d); B=gen_pv(g,db+1,d); long d1=1+(long)g.draw(std::max<long>(d,1)); if(g.coin(1,3)) B=gen_pv(g,db+1,d1); for(PV*v:{&A,&B}){ Poly&l=v->back(); if(nz0){ l.resize(std::max<size_t>(1,l.size()),0); if(!l[0]) l[0]=gen_nz(g); } else if(l.empty()) l=Poly{gen_nz(g)}; ref::norm(l);} c.note("dAy",da); c.note("dBy",db); }
static PMat sylv(const PV&a,const PV&b){ long da=a.size()-1,db=b.size()-1,n=da+db; PMat D(n,n); for(long i=0;i<db;i++) for(long j=0;j<=da;j++) D.at(i+j,i)=a[j]; for(long i=0;i<da;i++) for(long j=0;j<=db;j++) D.at(i+j,i+db)=b[j]; return D; }
static void t_syl(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n,d; sizes(g,c,n,d); if(n>20) n=20; PV A,B; gen_ab(g,c,A,B,n,0,d,false); PMat D=sylv(A,B); sylvester_lzz_pX M(putpv(A),putpv(B)); long k=1+(long)g.draw(3); for(long i=0;i<k;i++) ops(g,c,M,D,std::max<long>(d,4)); }
static void t_sylinv(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n,d; sizes(g,c,n,d); if(n>12) n=12; if(d>20) d=20; PV A,B; gen_ab(g,c,A,B,n,1,d,true); PMat D=sylv(A,B); n=D.r; if(ref::cdet(ref::meval(D,0))==0) throw Discard(); NONTRIVIAL(c,ref::mdeg(D)>=1);
  sylvester_lzz_pX M(putpv(A),putpv(B));
  { Mat<zz_pX> G,H; if(g.coin(1,2)){ G=dirtyp(g,n,2); H=dirtyp(g,n,2);} M.phi_plus_generators(G,H); ckm(ref::mmul(get(G),ref::mtr(get(H))),ref::msub(ref::mmul(refZ(n,1),D),ref::mmul(D,refZ(n,0))),"phi_plus_generators"); }
  long m=g.size(1,3*std::max<long>(ref::mdeg(D),1)+6); c.note("m",m); bool hp=g.coin(1,2); c.note("high",hp); toeplitz_like_minus_lzz_pX iM; if(g.coin(1,4)) iM=toeplitz_like_minus_lzz_pX(dirtyp(g,2,1),dirtyp(g,2,1)); if(hp) M.high_precision_inv_trunc(iM,m); else M.newton_inv_trunc(iM,m);
  CHECK(iM.NumRows()==n&&iM.NumCols()==n,"inverse has wrong dimensions"); PMat I=ref::mtrunc(get(iM.to_dense()),m); ckm(ref::mtrunc(ref::mmul(D,I),m),ref::mident(n),"M * inverse mod x^m");
  PV v=gen_pv(g,n,m); Vec<zz_pX> w; iM.mul_right_trunc(w,putpv(v),m); ckv(get(w),ref::mtrunc(ref::mmul(I,col(v)),m),"product of the truncated inverse by a vector"); }
static void t_gens(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n,d; sizes(g,c,n,d); if(n>12) n=12; long m=g.size(1,12); c.note("rows",m); PMat A=gen_pmat(g,m,n,d); NONTRIVIAL(c,ref::mdeg(A)>=0&&m*n>1); Mat<zz_pX> R; Mat<zz_pX> a=put(A); bool al=g.coin(1,4); bool plus=g.coin(1,2); c.note("plus",plus); if(al){ if(plus) toeplitz_lzz_pX_phi_plus(a,a); else toeplitz_lzz_pX_phi_minus(a,a); R=a; } else { if(plus) toeplitz_lzz_pX_phi_plus(R,a); else toeplitz_lzz_pX_phi_minus(R,a); }
  PMat W=plus?ref::msub(ref::mmul(refZ(m,1%ref::P),A),ref::mmul(A,refZ(n,0))):ref::msub(ref::mmul(refZ(m,0),A),ref::mmul(A,refZ(n,1%ref::P))); ckm(get(R),W,"displacement operator"); Mat<zz_pX> y=put(A); ckm(get(plus?toeplitz_lzz_pX_phi_plus(y):toeplitz_lzz_pX_phi_minus(y)),W,"displacement operator (returned)"); }
std::vector<Sub> SUBS={{"lower-toeplitz",t_ltt,6000,200000,100},{"circulant-row",t_circ,6000,200000,100},{"toeplitz-like-minus",t_tlm,4000,100000,50},{"sylvester",t_syl,6000,200000,100},{"sylvester-inverse",t_sylinv,4000,100000,50},{"displacement",t_gens,3000,60000,100}};
