// C16: polynomial matrix multiplication
#include "pm.h"
const char* PROP_RULE="random pairs of polynomial matrices: small (1..7), inner dimension up to 700 (slices of delayed reductions), shapes whose volume crosses every selection threshold (4^3..66^3), degrees -1..1400 crossing every degree threshold, zero/sparse/low-rank/uneven entries, every kind of modulus (and composite moduli with is_prime=0), output fresh/dirty/aliased with either input; automatic choice and each named algorithm; schoolbook product when small, exact random projections of the defining identity when big; evaluation and interpolation matrices by what they multiply to, and reconstruction from residues modulo one to three FFT primes up to the announced bound; non-trivial: inner dimension >= 2 and both degrees >= 1";
std::vector<std::string> ASSUMPTIONS={"named algorithms are called under the conditions of their description: enough evaluation points in the field, FFT prime with enough roots for the FFT ones, degree below the length of the fixed transforms, non-empty dimensions","composite moduli only with is_prime=0, odd or even"};
std::vector<Known> KNOWN={};
static void dims(Gen&g,Case&c,long&m,long&n,long&p,long&da,long&db){ u64 k=g.draw(16);
  if(k<8){ m=1+g.size(0,6); n=1+g.size(0,6); p=1+g.size(0,6); da=g.size(-1,g.coin(1,6)?60:9); db=g.size(-1,g.coin(1,6)?60:9); }
  else if(k<10){ m=1+(long)g.draw(4); n=1+(long)g.draw(4); p=1+(long)g.draw(4); long D=g.pick({30L,70L,110L,300L,600L,1400L}); da=(long)g.draw(D); db=(long)g.draw(D); if(g.coin(1,3)) db=da; }
  else if(k<12){ m=1+(long)g.draw(3); p=1+(long)g.draw(3); n=g.pick({254L,255L,256L,257L,300L,510L,511L,512L,700L}); da=(long)g.draw(8); db=(long)g.draw(8); }
  else if(k<15){ long v=g.pick({4L,5L,6L,7L,8L,9L,12L,16L,17L,20L,21L,25L,26L}); m=std::max(1L,v+g.range(-1,1)); n=std::max(1L,v+g.range(-1,1)); p=std::max(1L,v+g.range(-1,1)); long D=v<=9?g.pick({12L,40L,70L,110L}):g.pick({12L,40L,60L,110L}); da=(long)g.draw(D); db=(long)g.draw(D); if(g.coin(1,2)) da=db=D; }
  else { long v=g.pick({30L,48L,49L,64L,66L}); m=v; n=g.coin(1,2)?v:v+1; p=v; da=db=g.pick({1L,3L,7L,20L,33L}); if(g.coin(1,3)) db=(long)g.draw(da+1); }
  c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",da); c.note("dB",db); c.tag(k<8?"small":k<10?"longdeg":k<12?"longinner":k<15?"mid":"large"); }
static PMat gm(Gen&g,long r,long c,long d){ if(g.coin(1,2)){ return gen_pmat_dense(g,r,c,d+1); } return gen_pmat(g,r,c,d+1); }
typedef void(*MulFn)(Mat<zz_pX>&,const Mat<zz_pX>&,const Mat<zz_pX>&);
static void m_auto(Mat<zz_pX>&c,const Mat<zz_pX>&a,const Mat<zz_pX>&b){ multiply(c,a,b); }
static void m_trs(Mat<zz_pX>&c,const Mat<zz_pX>&a,const Mat<zz_pX>&b){ multiply_transform(c,a,b); }
static void run(Gen&g,Case&c,MulFn fn,const PMat&A,const PMat&B,const std::string&nm){ Mat<zz_pX> a=put(A),b=put(B),o; u64 al=g.draw(5); c.note("out",al); c.note("alg",nm); c.tag("alg:"+nm); NONTRIVIAL(c,A.c>=2&&ref::mdeg(A)>=1&&ref::mdeg(B)>=1);
  switch(al){ case 1: o=outm(g,A.r,B.c); break; case 2: fn(a,a,b); ck_prod(g,A,B,get(a),nm+" (output aliases the left factor)"); ckm(b,B,"right factor afterwards"); return; case 3: fn(b,a,b); ck_prod(g,A,B,get(b),nm+" (output aliases the right factor)"); ckm(a,A,"left factor afterwards"); return; case 4: if(A.r==A.c&&B.c==A.c){ fn(a,a,a); ck_prod(g,A,A,get(a),nm+" (square, all three aliased)"); return; } break; default:; }
  fn(o,a,b); ck_prod(g,A,B,get(o),nm); ckm(a,A,"left factor afterwards"); ckm(b,B,"right factor afterwards"); }
static void t_auto(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m,n,p,da,db; dims(g,c,m,n,p,da,db); if(g.coin(1,20)) switch(g.draw(3)){ case 0: m=0; break; case 1: n=0; break; default: p=0; } PMat A=gm(g,m,n,da),B=gm(g,n,p,db);
  if(g.coin(1,12)){ // vector and operator forms
    NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1&&ref::mdeg(B)>=1); Mat<zz_pX> a=put(A),b=put(B); u64 w=g.draw(4); c.note("form",w); if(w==0){ PMat V=gm(g,n,1,db); Vec<zz_pX> v=putpv(V.a),o; if(g.coin(1,2)) multiply(o,a,v); else if(g.coin(1,2)) o=a*v; else { o=v; multiply(o,a,o); } PMat R(m,1); R.a=get(o); CHECK((long)R.a.size()==m,"matrix*vector: wrong length"); ck_prod(g,A,V,R,"matrix*vector"); } else if(w==1){ PMat V=gm(g,1,m,db); Vec<zz_pX> v=putpv(V.a),o; if(g.coin(1,2)) multiply(o,v,a); else if(g.coin(1,2)) o=v*a; else { o=v; multiply(o,o,a); } PMat R(1,n); R.a=get(o); CHECK((long)R.a.size()==n,"vector*matrix: wrong length"); ck_prod(g,V,A,R,"vector*matrix"); } else if(w==2) ck_prod(g,A,B,get(a*b),"operator*"); else { long d=g.range(0,da+db+3); PMat W=ref::mtrunc(get(a*b),std::max(d,0L)); Mat<zz_pX> o=outm(g,m,p); if(g.coin(1,2)) mul_trunc(o,a,b,d); else o=mul_trunc(a,b,d); ckm(o,W,"mul_trunc vs truncated product"); } return; }
  if(g.coin(1,8)&&crt_degree_drop(g,A,B,da,db)) c.tag("crt-degree-drop"); run(g,c,m_auto,A,B,"multiply"); }
static void t_named(Gen&g,Case&c){ struct E{ const char*n; MulFn f; int need; }; static const E L[]={{"naive",multiply_naive,0},{"waksman",multiply_waksman,0},{"transform_naive",multiply_transform_naive,0},{"transform",m_trs,0},{"3_primes",multiply_3_primes,0},
  {"transform_karatsuba",multiply_transform_karatsuba,2},{"transform_montgomery3",multiply_transform_montgomery3,3},{"transform_karatsuba4",multiply_transform_karatsuba4,4},
  {"evaluate_dense",multiply_evaluate_dense,10},{"evaluate_dense2",multiply_evaluate_dense2,11},{"evaluate_geometric",multiply_evaluate_geometric,12},
  {"evaluate_FFT",multiply_evaluate_FFT,20},{"evaluate_FFT_matmul1",multiply_evaluate_FFT_matmul1,20},{"evaluate_FFT_matmul2",multiply_evaluate_FFT_matmul2,20},{"evaluate_FFT_matmul3",multiply_evaluate_FFT_matmul3,20},{"evaluate_FFT_direct_ll_type",multiply_evaluate_FFT_direct_ll_type,20},{"evaluate_FFT_direct",multiply_evaluate_FFT_direct,20}};
  const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; long m,n,p,da,db; dims(g,c,m,n,p,da,db); if(e.need>=2&&e.need<=4){ da=g.range(-1,e.need-1); db=g.range(-1,e.need-1); c.note("dA",da); c.note("dB",db); } if((e.need==0&&e.n[0]=='t')||e.need==10||e.need==11){ da=std::min(da,150L); db=std::min(db,150L); } if((double)m*n*p*(da+2)*(db+2)>3e7&&e.need<=1&&e.n[0]!='3') { da=std::min(da,20L); db=std::min(db,20L); }
  long sz=std::max(1L,da+db+1); Field f; if(e.need==20) f=gen_field(g,F_FFT|F_USERFFT); else if(e.need==10) f=gen_field(g,F_ALL,std::max(2L,sz)); else if(e.need==11) f=gen_field(g,F_ALL,sz+4); else if(e.need==12) f=gen_field(g,F_ALL,16*sz); else f=gen_field(g); note_field(c,f);
  PMat A=gm(g,m,n,da),B=gm(g,n,p,db); if(g.coin(1,e.n[0]=='3'?2:16)&&crt_degree_drop(g,A,B,da,db)) c.tag("crt-degree-drop"); run(g,c,e.f,A,B,e.n); }
static void t_composite(Gen&g,Case&c){ u64 q=g.coin(1,2)?4+g.draw(1000):(1ULL<<(10+g.draw(49)))+g.draw(1ULL<<10); if(isprime(q)) q++; if(isprime(q)) throw Discard(); zz_p::init((long)q); ref::P=q; c.note("modulus",q); long m,n,p,da,db; dims(g,c,m,n,p,da,db); run(g,c,[](Mat<zz_pX>&o,const Mat<zz_pX>&a,const Mat<zz_pX>&b){ multiply(o,a,b,0); },gm(g,m,n,da),gm(g,n,p,db),"multiply(is_prime=0)"); }
// shapes and degrees on both sides of the selection thresholds of the FFT-based function, with small and large FFT primes
static void t_select(Gen&g,Case&c){ Field f; if(g.coin(1,2)){ std::vector<u64> L; for(u64 q:userfft()) if(q<(1ULL<<23)) L.push_back(q); f.kind=F_USERFFT; f.idx=0; f.p=L[g.draw(L.size())]; set_field(f); } else f=gen_field(g,F_FFT|F_USERFFT); note_field(c,f); long m=g.pick({4L,6L,8L,9L,12L,16L,17L,20L}),n=m+g.range(-1,1),p=m+g.range(-1,1); long D=g.pick({10L,32L,52L,64L,82L,102L}),da=std::max(0L,D-(long)g.draw(4)),db=D-(long)g.draw(4); if(g.coin(1,4)) db=(long)g.draw(db+1); c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",da); c.note("dB",db); run(g,c,g.coin(1,3)?m_auto:multiply_evaluate_FFT,gm(g,m,n,da),gm(g,n,p,db),"selection"); }
// constant factors with every entry at or near p-1: the transforms stay saturated, so the accumulators of delayed reductions get their largest sums
static PMat sat(Gen&g,long r,long c){ PMat A(r,c); u64 k=g.coin(1,3)?4:1; Rng q(g.seed32()); for(auto&p:A.a){ p.assign(1,ref::P-1-q.below(std::min<u64>(k,ref::P))); ref::norm(p); } return A; }
static long satn(Gen&g){ return g.coin(1,2)?g.range(253,259):g.coin(1,2)?g.range(508,516):g.range(763,771); }
static Field satf(Gen&g){ if(g.coin(2,3)){ Field f; f.kind=F_FFT; f.idx=(int)g.draw(3); set_field(f); f.p=ref::P; return f; } return gen_field(g,F_FFT|F_USERFFT); }
static void t_sat(Gen&g,Case&c){ Field f=satf(g); note_field(c,f); long m=1+(long)g.draw(3),n=satn(g),p=1+(long)g.draw(3); PMat A=sat(g,m,n),B=sat(g,n,p); c.note("m",m); c.note("n",n); c.note("p",p); struct E{ const char*n; MulFn f; }; static const E L[]={{"multiply",m_auto},{"evaluate_FFT",multiply_evaluate_FFT},{"evaluate_FFT_direct_ll_type",multiply_evaluate_FFT_direct_ll_type},{"evaluate_FFT_direct_ll_type",multiply_evaluate_FFT_direct_ll_type},{"evaluate_FFT_direct",multiply_evaluate_FFT_direct},{"3_primes",multiply_3_primes},{"naive",multiply_naive},{"waksman",multiply_waksman},{"evaluate_FFT_matmul1",multiply_evaluate_FFT_matmul1}}; const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; if(g.coin(1,3)){ long z=1+(long)g.draw(3); for(auto&q:A.a){ Poly t(z,0); t.insert(t.end(),q.begin(),q.end()); q=t; ref::norm(q); } } run(g,c,e.f,A,B,e.n); NONTRIVIAL(c,true); }
// the largest possible integer coefficients, with moduli at the edges where multi-modular products change their number of primes
static void t_crt(Gen&g,Case&c){ long m=1+(long)g.draw(3),n=1+g.size(0,g.coin(1,6)?300:12),p=1+(long)g.draw(3),la=1+g.size(0,40),lb=1+g.size(0,40); if(g.coin(1,2)) lb=la; Field f=crt_edge_field(g,n,std::min(la,lb)); note_field(c,f); c.note("m",m); c.note("n",n); c.note("p",p); c.note("lenA",la); c.note("lenB",lb); NONTRIVIAL(c,true); run(g,c,g.coin(1,4)?m_auto:multiply_3_primes,full_pmat(g,m,n,la),full_pmat(g,n,p,lb),"3_primes"); }
// long entries: NTL products of the entries as the oracle
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ struct E{ const char*n; MulFn f; int need; }; static const E L[]={{"multiply",m_auto,0},{"multiply",m_auto,0},{"3_primes",multiply_3_primes,0},{"waksman",multiply_waksman,0},{"naive",multiply_naive,0},{"evaluate_geometric",multiply_evaluate_geometric,12},{"evaluate_FFT",multiply_evaluate_FFT,20},{"evaluate_FFT_direct",multiply_evaluate_FFT_direct,20},{"evaluate_FFT_direct_ll_type",multiply_evaluate_FFT_direct_ll_type,20},{"evaluate_FFT_matmul1",multiply_evaluate_FFT_matmul1,20}}; const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; long m=1+(long)g.draw(2),n=1+(long)g.draw(3),p=1+(long)g.draw(2),hi=e.need==12?1500:9000,la=llen(g,600,hi),lb=g.coin(1,2)?la+g.range(-1,1):g.coin(1,3)?1+(long)g.draw(30):llen(g,600,hi); Field f=e.need==20?gen_field(g,F_FFT|F_USERFFT,1ULL<<26):e.need==12?gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33):gen_field(g); note_field(c,f); if(e.need==20){ long k=NextPowerOfTwo(la+lb); if(k>zz_pInfo->MaxRoot) throw Discard(); } c.note("alg",e.n); c.tag(std::string("alg:")+e.n); c.note("m",m); c.note("n",n); c.note("p",p); c.note("lenA",la); c.note("lenB",lb); NONTRIVIAL(c,n>=2);
  Mat<zz_pX> a,b,o,w; a.SetDims(m,n); b.SetDims(n,p); w.SetDims(m,p); for(long i=0;i<m;i++) for(long j=0;j<n;j++) a[i][j]=lpoly(g,la); for(long i=0;i<n;i++) for(long j=0;j<p;j++) b[i][j]=lpoly(g,lb); for(long i=0;i<m;i++) for(long j=0;j<p;j++) for(long k=0;k<n;k++) w[i][j]+=a[i][k]*b[k][j]; e.f(o,a,b); CHECK(o==w,std::string(e.n)+": product of long entries wrong"); }
// building blocks: evaluation / interpolation matrices, reconstruction from residues
static void t_blocks(Gen&g,Case&c){ u64 k=g.draw(3); c.tag(k==0?"vandermonde":k==1?"vandermonde2":"residues");
  if(k<2){ long d1=g.size(0,14),d2=g.size(0,14); if(g.coin(1,10)) d1=(long)g.draw(80); Field f=gen_field(g,F_ALL,2*(d1+d2)+5); note_field(c,f); c.note("d1",d1); c.note("d2",d2); NONTRIVIAL(c,d1>=1&&d2>=1); Mat<zz_p> v1,v2,iv; if(g.coin(1,3)){ v1.SetDims(3,5); v2.SetDims(2,2); iv.SetDims(4,1); for(long i=0;i<3;i++) for(long j=0;j<5;j++) v1[i][j]=Z(1); v2[0][0]=Z(1); }
    if(k==0) vandermonde(v1,v2,iv,d1,d2); else vandermonde2(v1,v2,iv,d1,d2); long n=k==0?d1+d2+1:(d1+d2)/2+1,s1=k==0?d1+1:d1/2+1,s2=k==0?d2+1:d2/2+1; CHECK(v1.NumRows()==n&&v1.NumCols()==s1&&v2.NumRows()==n&&v2.NumCols()==s2&&iv.NumRows()==n&&iv.NumCols()==n,"Vandermonde matrices: wrong dimensions");
    Poly A=gen_poly(g,s1),B=gen_poly(g,s2),W=ref::pmul(A,B); Vec<zz_p> x,y,z; x.SetLength(s1); y.SetLength(s2); for(long i=0;i<s1;i++) x[i]=Z(ref::coef(A,i)); for(long i=0;i<s2;i++) y[i]=Z(ref::coef(B,i)); Vec<zz_p> ex=v1*x,ey=v2*y; z.SetLength(n); for(long i=0;i<n;i++) z[i]=ex[i]*ey[i]; Vec<zz_p> w=iv*z; for(long i=0;i<n;i++) CHECK(rep(w[i])==(long)ref::coef(W,i),"evaluation at the points, products and interpolation: wrong coefficient "+std::to_string(i)); return; }
  Field f=gen_field(g); note_field(c,f); long n=g.pick({1L,2L,3L,8L,64L,1000L,1L<<20}),dA=g.pick({0L,1L,5L,100L,4000L}),dB=g.coin(1,2)?dA:g.pick({0L,1L,5L,100L,4000L}),p=zz_p::modulus(); ZZ M=ZZ(n)*ZZ(std::min(dA,dB)+1)*ZZ(p-1)*ZZ(p-1); c.note("n",n); c.note("dA",dA); c.note("dB",dB); lzz_pX_3_primes P3(n,dA,dB); long nb=P3.nb(); c.tag("primes:"+std::to_string(nb)); CHECK(nb>=1&&nb<=3,"number of primes"); long r=1+(long)g.draw(2),q=1+(long)g.draw(2),len=1+(long)g.draw(5); NONTRIVIAL(c,nb>=2);
  std::vector<ZZ> V; Rng rg(g.seed32()); for(long i=0;i<r*q*len;i++){ ZZ v(0); switch(g.draw(4)){ case 0: v=M-g.draw(3); break; case 1: v=ZZ(g.draw(3)); break; case 2: v=M/2+(long)g.draw(5)-2; break; default: for(int j=0;j<4;j++) v=(v<<60)+ZZ((long)(rg()>>4)); v%=M+1; } if(v<0) v=0; if(v>M) v=M; V.push_back(v); }
  // residues modulo the FFT primes of NTL, as matrices over these fields
  Vec<Mat<zz_pX>> cs; cs.SetLength(nb); for(long k=0;k<nb;k++){ zz_pPush push; zz_p::FFTInit(k); cs[k].SetDims(r,q); for(long i=0;i<r;i++) for(long j=0;j<q;j++) for(long e=0;e<len;e++) SetCoeff(cs[k][i][j],e,conv<zz_p>(V[(i*q+j)*len+e])); }
  Mat<zz_pX> o=outm(g,r,q); P3.reconstruct(o,cs); CHECK(zz_p::modulus()==p,"reconstruct changed the modulus"); CHECK(o.NumRows()==r&&o.NumCols()==q,"reconstruct: dimensions"); for(long i=0;i<r;i++) for(long j=0;j<q;j++) for(long e=0;e<len;e++) CHECK(coeff(o[i][j],e)==conv<zz_p>(V[(i*q+j)*len+e]),"reconstruct: wrong value"); for(long i=0;i<r;i++) for(long j=0;j<q;j++) CHECK(deg(o[i][j])<len,"reconstruct: degree"); }
std::vector<Sub> SUBS={{"automatic",t_auto,6000,150000,40},{"named",t_named,10000,250000,40},{"saturated",t_sat,1500,20000,50},{"crt_edges",t_crt,3000,60000,50},{"selection",t_select,1500,30000,20},{"composite",t_composite,1500,30000,40},{"long",t_long,400,10000,20},{"blocks",t_blocks,20000,200000,60}};
