// C17: polynomial matrix middle products and transposed products
#include "pm.h"
const char* PROP_RULE="random left factors of degree below/at/above dA and right factors of degree below/at/above dA+dB (above only for the automatic function), bounds dA,dB 0..300 (balanced and very unbalanced), dimensions 1..50 with long inner dimensions up to 520, every kind of modulus (including sizes where the number of CRT primes changes), output fresh/dirty/aliased; automatic choice and each named algorithm compared with the slice of the product computed by schoolbook arithmetic (or by exact random projections when big); non-trivial: inner dimension >= 2, dA>=1, non-zero slice";
std::vector<std::string> ASSUMPTIONS={"named algorithms within their stated degree bounds (deg a <= dA, deg c <= dA+dB), non-empty dimensions, enough points / FFT roots in the field"};
std::vector<Known> KNOWN={};
typedef void(*MpFn)(Mat<zz_pX>&,const Mat<zz_pX>&,const Mat<zz_pX>&,long,long);
static void dims(Gen&g,Case&c,long&m,long&n,long&p,long&da,long&db){ u64 k=g.draw(16);
  if(k<8){ m=1+g.size(0,5); n=1+g.size(0,5); p=1+g.size(0,5); da=g.size(0,g.coin(1,4)?60:9); db=g.size(0,g.coin(1,4)?60:9); }
  else if(k<11){ m=1+(long)g.draw(3); n=1+(long)g.draw(4); p=1+(long)g.draw(3); long D=g.pick({30L,70L,110L,300L}); da=(long)g.draw(D); db=(long)g.draw(D); u64 u=g.draw(4); if(u==0) db=(long)g.draw(3); if(u==1) da=(long)g.draw(3); }
  else if(k<13){ m=1+(long)g.draw(3); p=1+(long)g.draw(3); n=g.pick({254L,255L,256L,257L,300L,510L,511L,520L}); da=(long)g.draw(8); db=(long)g.draw(8); }
  else if(k<15){ long v=g.pick({4L,5L,6L,8L,9L,12L,16L,17L,20L,21L}); m=v; n=v; p=v; long D=g.pick({4L,12L,40L,70L}); da=(long)g.draw(D); db=(long)g.draw(D); if(g.coin(1,2)) da=db=D; }
  else { long v=g.pick({30L,45L,46L,50L}); m=v; n=v; p=v; da=g.pick({1L,3L,7L,20L}); db=(long)g.draw(2*da+1); }
  c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",da); c.note("dB",db); c.tag(k<8?"small":k<11?"longdeg":k<13?"longinner":k<15?"mid":"large"); }
static PMat gm(Gen&g,long r,long c,long d){ switch(g.draw(4)){ case 0: return gen_pmat(g,r,c,d+1); case 1: { PMat A=gen_pmat_dense(g,r,c,d+1); for(auto&q:A.a) for(auto&x:q) x=ref::P-1-x%std::min<u64>(ref::P,16); for(auto&q:A.a) ref::norm(q); return A; } default: return gen_pmat_dense(g,r,c,d+1); } }
// the slice of the product, exactly (small) or through projections
static void ck_slice(Gen&g,const PMat&A,const PMat&C,const PMat&R,long dA,long dB,const std::string&w){ CHECK(R.r==A.r&&R.c==C.c,w+": shape "+std::to_string(R.r)+"x"+std::to_string(R.c)); CHECK(ref::mdeg(R)<=dB,w+": degree above dB"); PMat At=ref::mtrunc(A,dA+1); double cost=(double)A.r*A.c*C.c*(ref::mdeg(At)+1)*(ref::mdeg(C)+1); if(cost<3e5){ ckm(R,ref::mslice(ref::mmul(At,C),dA,dB+1),w); return; }
  Rng q(g.seed32()); int reps=ref::P>(1ULL<<30)?2:ref::P>1000?6:24; for(int t=0;t<reps;t++){ ref::Vec u(A.r),v(C.c); for(auto&x:u) x=q()%ref::P; for(auto&x:v) x=q()%ref::P; PMat uA=mproj(At,u),Cv=ref::mtr(mproj(ref::mtr(C),v)); CMat k(C.c,1); k.a=v; PMat l=ref::mslice(ref::mmul(uA,Cv),dA,dB+1),r=ref::mmul(mproj(R,u),ref::mconst(k)); CHECK(ref::peq(l.at(0,0),r.at(0,0)),w+" wrong (random projection)"); } }
static void run(Gen&g,Case&c,MpFn fn,const PMat&A,const PMat&C,long dA,long dB,const std::string&nm,bool rev=false){ Mat<zz_pX> a=put(A),cc=put(C),o; u64 al=g.draw(4); c.note("out",al); c.note("alg",nm); c.tag("alg:"+nm); NONTRIVIAL(c,A.c>=2&&dA>=1&&ref::mdeg(A)>=0&&ref::mdeg(C)>=dA); PMat L=rev?ref::mmap(A,[&](const Poly&p){return ref::prev(p,dA);}):A; Mat<zz_pX>*R=al==2?&a:al==3?&cc:&o; if(al==1) o=outm(g,A.r,C.c); fn(*R,a,cc,dA,dB); ck_slice(g,L,C,get(*R),dA,dB,nm); if(R!=&a) ckm(a,A,"left factor afterwards"); if(R!=&cc) ckm(cc,C,"right factor afterwards"); }
static void m_auto(Mat<zz_pX>&b,const Mat<zz_pX>&a,const Mat<zz_pX>&c,long dA,long dB){ middle_product(b,a,c,dA,dB); }
static void m_ret(Mat<zz_pX>&b,const Mat<zz_pX>&a,const Mat<zz_pX>&c,long dA,long dB){ b=middle_product(a,c,dA,dB); }
static void m_comp(Mat<zz_pX>&b,const Mat<zz_pX>&a,const Mat<zz_pX>&c,long dA,long dB){ middle_product(b,a,c,dA,dB,0); }
static long degnear(Gen&g,long d,bool over){ switch(g.draw(8)){ case 0: return g.range(-1,d); case 1: return d-1; case 2: return std::min(d,(long)g.draw(3)-1); case 3: case 4: if(over) return d+1+(long)g.draw(d+5); return d; default: return d; } }
static void t_auto(Gen&g,Case&c){ bool comp=g.coin(1,8); if(comp){ u64 q=g.coin(1,2)?4+g.draw(1000):(1ULL<<(10+g.draw(49)))+g.draw(1ULL<<10); if(isprime(q)) q++; if(isprime(q)) throw Discard(); zz_p::init((long)q); ref::P=q; c.note("modulus",q); } else { Field f=gen_field(g); note_field(c,f); } long m,n,p,da,db; dims(g,c,m,n,p,da,db); long ea=degnear(g,da,true),ec=degnear(g,da+db,true); c.note("degA",ea); c.note("degC",ec); PMat A=gm(g,m,n,ea),C=gm(g,n,p,ec); if(g.coin(1,8)&&crt_degree_drop(g,A,C,ea,g.coin(1,2)?ec:std::min(ec,db))) c.tag("crt-degree-drop"); run(g,c,comp?m_comp:g.coin(1,5)?m_ret:m_auto,A,C,da,db,comp?"middle_product(is_prime=0)":"middle_product"); }
static void t_named(Gen&g,Case&c){ struct E{ const char*n; MpFn f; int need; }; static const E L[]={{"naive",middle_product_naive,0},{"3_primes",middle_product_3_primes,0},{"3_primes",middle_product_3_primes,0},{"evaluate_dense",middle_product_evaluate_dense,10},{"t_multiply_evaluate_geometric",t_multiply_evaluate_geometric,12},
  {"evaluate_FFT",middle_product_evaluate_FFT,20},{"evaluate_FFT_new",middle_product_evaluate_FFT_new,20},{"evaluate_FFT_matmul",middle_product_evaluate_FFT_matmul,20},{"evaluate_FFT_matmul1",middle_product_evaluate_FFT_matmul1,20},{"evaluate_FFT_matmul2",middle_product_evaluate_FFT_matmul2,20},{"evaluate_FFT_matmul3",middle_product_evaluate_FFT_matmul3,20},{"evaluate_FFT_direct_ll_type",middle_product_evaluate_FFT_direct_ll_type,20},{"evaluate_FFT_direct",middle_product_evaluate_FFT_direct,20}};
  const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; long m,n,p,da,db; dims(g,c,m,n,p,da,db); long sz=da+db+1; Field f; if(e.need==20) f=gen_field(g,F_FFT|F_USERFFT); else if(e.need==10) f=gen_field(g,F_ALL,std::max(2L,sz)); else if(e.need==12) f=gen_field(g,F_ALL,16*sz); else f=gen_field(g); note_field(c,f); if(e.need==10&&sz>140) throw Discard(); if(e.need==0&&e.n[0]=='n'&&(double)m*n*p*(da+1)*(db+1)>1e7) throw Discard();
  long ea=degnear(g,da,false),ec=degnear(g,da+db,false); c.note("degA",ea); c.note("degC",ec); PMat A=gm(g,m,n,ea),C=gm(g,n,p,ec); if(g.coin(1,e.n[0]=='3'?2:16)){ long t=std::min(ec,da+db-ea); for(auto&q:C.a){ if((long)q.size()>t+1) q.resize(std::max(0L,t+1)); ref::norm(q); } if(crt_degree_drop(g,A,C,ea,t)) c.tag("crt-degree-drop"); } run(g,c,e.f,A,C,da,db,e.n,e.need==12); }
// shapes and degrees on both sides of the selection thresholds of the FFT-based function, with small and large FFT primes
static void t_select(Gen&g,Case&c){ Field f; if(g.coin(1,2)){ std::vector<u64> L; for(u64 q:userfft()) if(q<(1ULL<<23)) L.push_back(q); f.kind=F_USERFFT; f.idx=0; f.p=L[g.draw(L.size())]; set_field(f); } else f=gen_field(g,F_FFT|F_USERFFT); note_field(c,f); long m=g.pick({4L,6L,8L,9L,12L,16L,17L}),n=m+g.range(-1,1),p=m+g.range(-1,1); long D=g.pick({10L,32L,52L,64L,82L,102L}),da=std::max(0L,D-(long)g.draw(4)),db=D-(long)g.draw(4); if(m>12){ da=std::min(da,70L); db=std::min(db,70L); } c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",da); c.note("dB",db); PMat A=gm(g,m,n,degnear(g,da,false)),C=gm(g,n,p,degnear(g,da+db,false)); run(g,c,g.coin(1,3)?m_auto:middle_product_evaluate_FFT,A,C,da,db,"selection"); }
// constant factors with every entry at or near p-1: the transforms stay saturated, so the accumulators of delayed reductions get their largest sums
static PMat sat(Gen&g,long r,long c){ PMat A(r,c); u64 k=g.coin(1,3)?4:1; Rng q(g.seed32()); for(auto&p:A.a){ p.assign(1,ref::P-1-q.below(std::min<u64>(k,ref::P))); ref::norm(p); } return A; }
static long satn(Gen&g){ return g.coin(1,2)?g.range(253,259):g.coin(1,2)?g.range(508,516):g.range(763,771); }
static Field satf(Gen&g){ if(g.coin(2,3)){ Field f; f.kind=F_FFT; f.idx=(int)g.draw(3); set_field(f); f.p=ref::P; return f; } return gen_field(g,F_FFT|F_USERFFT); }
static void t_sat(Gen&g,Case&c){ Field f=satf(g); note_field(c,f); long m=1+(long)g.draw(3),n=satn(g),p=1+(long)g.draw(3),da=(long)g.draw(3),db=(long)g.draw(4); PMat A=sat(g,m,n),C=sat(g,n,p); if(da){ for(auto&q:C.a){ Poly t(da,0); t.insert(t.end(),q.begin(),q.end()); q=t; ref::norm(q); } } c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",da); c.note("dB",db); struct E{ const char*n; MpFn f; }; static const E L[]={{"middle_product",m_auto},{"evaluate_FFT",middle_product_evaluate_FFT},{"evaluate_FFT_direct_ll_type",middle_product_evaluate_FFT_direct_ll_type},{"evaluate_FFT_direct_ll_type",middle_product_evaluate_FFT_direct_ll_type},{"evaluate_FFT_direct",middle_product_evaluate_FFT_direct},{"3_primes",middle_product_3_primes},{"evaluate_FFT_new",middle_product_evaluate_FFT_new}}; const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; run(g,c,e.f,A,C,da,db,e.n); NONTRIVIAL(c,true); }
// the largest possible integer coefficients, with moduli at the edges where multi-modular products change their number of primes
static void t_crt(Gen&g,Case&c){ long m=1+(long)g.draw(3),n=1+g.size(0,g.coin(1,6)?300:12),p=1+(long)g.draw(3),la=1+g.size(0,40),lb=1+g.size(0,40); if(g.coin(1,2)) lb=la; Field f=crt_edge_field(g,n,g.coin(1,2)?std::min(la,lb):la); note_field(c,f); c.note("m",m); c.note("n",n); c.note("p",p); c.note("lenA",la); c.note("lenB",lb); NONTRIVIAL(c,true); run(g,c,g.coin(1,4)?m_auto:middle_product_3_primes,full_pmat(g,m,n,la),full_pmat(g,n,p,la+lb-1),la-1,lb-1,"3_primes"); }
// long entries: NTL products of the entries as the oracle
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ struct E{ const char*n; MpFn f; int need; }; static const E L[]={{"middle_product",m_auto,0},{"middle_product",m_auto,0},{"3_primes",middle_product_3_primes,0},{"naive",middle_product_naive,0},{"evaluate_FFT",middle_product_evaluate_FFT,20},{"evaluate_FFT_new",middle_product_evaluate_FFT_new,20},{"evaluate_FFT_direct",middle_product_evaluate_FFT_direct,20},{"evaluate_FFT_direct_ll_type",middle_product_evaluate_FFT_direct_ll_type,20},{"evaluate_FFT_matmul1",middle_product_evaluate_FFT_matmul1,20}}; const E&e=L[g.draw(sizeof(L)/sizeof(*L))]; long m=1+(long)g.draw(2),n=1+(long)g.draw(3),p=1+(long)g.draw(2),dA=llen(g,300,4500),dB=g.coin(1,2)?dA+g.range(-1,1):g.coin(1,3)?(long)g.draw(30):llen(g,300,4500); Field f=e.need==20?gen_field(g,F_FFT|F_USERFFT,1ULL<<26):gen_field(g); note_field(c,f); if(e.need==20){ long k=NextPowerOfTwo(2*(dA+dB+1)); if(k>zz_pInfo->MaxRoot) throw Discard(); } c.note("alg",e.n); c.tag(std::string("alg:")+e.n); c.note("m",m); c.note("n",n); c.note("p",p); c.note("dA",dA); c.note("dB",dB); NONTRIVIAL(c,n>=2);
  Mat<zz_pX> a,b,o,w; a.SetDims(m,n); b.SetDims(n,p); w.SetDims(m,p); for(long i=0;i<m;i++) for(long j=0;j<n;j++) a[i][j]=lpoly(g,dA+1); for(long i=0;i<n;i++) for(long j=0;j<p;j++) b[i][j]=lpoly(g,dA+dB+1); for(long i=0;i<m;i++) for(long j=0;j<p;j++){ for(long k=0;k<n;k++) w[i][j]+=a[i][k]*b[k][j]; w[i][j]=trunc(RightShift(w[i][j],dA),dB+1); } e.f(o,a,b,dA,dB); CHECK(o==w,std::string(e.n)+": middle product of long entries wrong"); }
std::vector<Sub> SUBS={{"automatic",t_auto,6000,150000,40},{"named",t_named,9000,200000,40},{"saturated",t_sat,1500,20000,50},{"crt_edges",t_crt,3000,60000,50},{"selection",t_select,1500,30000,20},{"long",t_long,300,8000,20}};
