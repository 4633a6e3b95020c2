// C18: left multipliers (objects with a history of right factors) and column partial linearization
#include "pm.h"
#include "mat_lzz_pX_linearization.h"
const char* PROP_RULE="(1) one multiplier object (automatic choice and each named kind) built from a left factor and bound dB, then a history of 1..6 products with right factors of varying widths and degrees -1..dB, fresh/dirty/aliased outputs, another object used in between, compared with schoolbook products or exact random projections; dimensions 1..201 and inner dimensions up to 520; (2) joins, collapses and partial linearizations of matrices of uneven degrees recombined and compared with the original, products and middle products through linearization compared with schoolbook; non-trivial: at least two products on the object or a linearization that really splits a column";
std::vector<std::string> ASSUMPTIONS={"right factors of degree at most the announced bound; named kinds only on fields having the points or roots they need","collapsed blocks have degree below the collapsing step; linearization degrees are at least 0 and target degrees bound the column degrees"};
std::vector<Known> KNOWN={};
typedef std::unique_ptr<mat_lzz_pX_lmultiplier> LM;
static PMat gm(Gen&g,long r,long c,long d){ switch(g.draw(4)){ case 0: return gen_pmat(g,r,c,d+1); case 1: { PMat A=gen_pmat_dense(g,r,c,d+1); for(auto&q:A.a){ for(auto&x:q) x=ref::P-1-x%std::min<u64>(ref::P,16); ref::norm(q);} return A; } default: return gen_pmat_dense(g,r,c,d+1); } }
static void dims(Gen&g,Case&c,long&m,long&n,long&da,long&db){ u64 k=g.draw(16);
  if(k<9){ m=1+g.size(0,6); n=1+g.size(0,6); da=g.size(0,g.coin(1,4)?60:9); db=g.size(0,g.coin(1,4)?60:9); }
  else if(k<12){ m=1+(long)g.draw(3); n=1+(long)g.draw(3); da=g.pick({30L,31L,90L,91L,150L,151L,200L}); db=g.pick({0L,1L,20L,100L,151L}); }
  else if(k<13){ m=1+(long)g.draw(3); n=g.pick({254L,255L,256L,257L,510L,511L,520L}); da=(long)g.draw(5); db=(long)g.draw(5); }
  else if(k<15){ m=g.pick({4L,6L,8L,9L,20L,21L}); n=g.pick({4L,6L,8L,9L,15L,16L,17L}); da=g.pick({3L,12L,31L,70L}); db=g.pick({0L,3L,12L,31L,70L}); }
  else { m=g.pick({40L,41L,100L,101L,200L,201L}); n=1+(long)g.draw(20); da=(long)g.draw(4); db=(long)g.draw(4); if(g.coin(1,3)){ n=1+(long)g.draw(2); da=g.pick({90L,91L,150L,151L}); db=(long)g.draw(20); } }
  c.note("m",m); c.note("n",n); c.note("dA",da); c.note("dB",db); c.tag(k<9?"small":k<12?"longdeg":k<13?"longinner":k<15?"mid":"manyrows"); }
static void t_lmul(Gen&g,Case&c){ long m,n,da,db; dims(g,c,m,n,da,db); if(g.coin(1,12)) da=-1; u64 kind=g.draw(8); static const char*nm[]={"auto","auto","auto","FFT_direct","FFT_matmul","geometric","dense","3_primes"}; c.tag(std::string("kind:")+nm[kind]); c.note("kind",nm[kind]);
  long sz=std::max(0L,da)+db+1; Field f; if(kind==3||kind==4) f=gen_field(g,F_FFT|F_USERFFT); else if(kind==5) f=gen_field(g,F_ALL,16*sz); else if(kind==6) f=gen_field(g,F_ALL,std::max(2L,sz)); else f=gen_field(g); note_field(c,f); if(kind==6&&sz>140) throw Discard();
  PMat A=gm(g,m,n,da),B0; bool drop=false; if(kind==7&&g.coin(1,3)){ B0=gm(g,n,1+(long)g.draw(3),db); drop=crt_degree_drop(g,A,B0,da,db); if(drop) c.tag("crt-degree-drop"); } Mat<zz_pX> a=put(A); LM L; switch(kind){ case 3: L.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a,db)); break; case 4: L.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a,db)); break; case 5: L.reset(new mat_lzz_pX_lmultiplier_geometric(a,db)); break; case 6: L.reset(new mat_lzz_pX_lmultiplier_dense(a,db)); break; case 7: L.reset(new mat_lzz_pX_lmultiplier_3_primes(a,db)); break; default: L=get_lmultiplier(a,db); }
  CHECK(L->NumRows()==m&&L->NumCols()==n&&L->degB()==db&&(L->degA()==ref::mdeg(A)||(ref::mdeg(A)<0&&L->degA()==0)),"announced dimensions or degrees are wrong");
  LM L2; PMat A2; if(g.coin(1,4)){ A2=gm(g,n,m,std::max(0L,(long)g.draw(da+2))); Mat<zz_pX> a2=put(A2); L2=get_lmultiplier(a2,db); }
  if(g.coin(1,4)) a=Mat<zz_pX>(); // the object must not depend on the left factor any more
  long k=1+(long)g.draw(m*n>200?2:5); NONTRIVIAL(c,k>=2&&n>=2&&ref::mdeg(A)>=0); c.note("k",k); Mat<zz_pX> o;
  for(long t=0;t<k;t++){ long p=1+g.size(0,m*n>200?3:8); if(g.coin(1,16)) p=g.pick({9L,16L,17L}); if(g.coin(1,24)) p=0; long e=db; switch(g.draw(5)){ case 0: e=-1+(long)g.draw(db+2); break; case 1: e=std::min(db,(long)g.draw(3)-1); break; default:; } c.note("p",p); c.note("degB",e); PMat B=gm(g,n,p,e); if(kind==7&&t==0&&drop) B=B0,p=B0.c; Mat<zz_pX> b=put(B); u64 al=g.draw(4); Mat<zz_pX>*R=al==3?&b:&o; if(al==1) o=outm(g,m,p); if(al==2) o=Mat<zz_pX>(); if(g.coin(1,5)) *R=L->multiply(b); else L->multiply(*R,b); ck_prod(g,A,B,get(*R),"product "+std::to_string(t)); if(R!=&b) ckm(b,B,"right factor afterwards");
    if(L2&&g.coin(1,2)){ PMat B2=gm(g,m,p?p:1,db); Mat<zz_pX> b2=put(B2),o2; L2->multiply(o2,b2); ck_prod(g,A2,B2,get(o2),"product by the other object"); } } }
static void t_join(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); u64 k=g.draw(3); long r=g.size(0,5); if(k==0){ long ca=g.size(0,5),cb=g.size(0,5); PMat A=gen_pmat(g,r,ca,1+g.size(0,6)),B=gen_pmat(g,r,cb,1+g.size(0,6)),W(r,ca+cb); for(long i=0;i<r;i++){ for(long j=0;j<ca;j++) W.at(i,j)=A.at(i,j); for(long j=0;j<cb;j++) W.at(i,ca+j)=B.at(i,j); } Mat<zz_pX> a=put(A),b=put(B),o=outm(g,r,ca+cb); u64 al=g.draw(3); Mat<zz_pX>*R=al==1?&a:al==2?&b:&o; if(g.coin(1,4)) *R=horizontal_join(a,b); else horizontal_join(*R,a,b); if(r) ckm(*R,W,"horizontal_join"); NONTRIVIAL(c,r&&ca&&cb); return; }
  long s=1+(long)g.draw(5),q=g.size(0,4),d=g.size(0,6); c.note("s",s); c.note("d",d); PMat A=gen_pmat(g,r,s*q,d),W(r,k==1?q:s); for(long i=0;i<r;i++) for(long j=0;j<W.c;j++){ Poly t; for(long u=0;u<(k==1?s:q);u++) t=ref::padd(t,ref::pshl(A.at(i,k==1?j*s+u:j+u*s),u*d)); W.at(i,j)=t; }
  Mat<zz_pX> a=put(A),o=outm(g,W.r,W.c); bool al=g.coin(1,3); Mat<zz_pX>*R=al?&a:&o; if(g.coin(1,4)) *R=k==1?collapse_consecutive_columns(a,d,s):collapse_nonconsecutive_columns(a,d,s); else if(k==1) collapse_consecutive_columns(*R,a,d,s); else collapse_nonconsecutive_columns(*R,a,d,s); if(r) ckm(*R,W,k==1?"collapse_consecutive_columns":"collapse_nonconsecutive_columns"); NONTRIVIAL(c,r&&q&&s>1&&d>0); }
static VecLong cdeg(const PMat&A){ VecLong v(A.c,-1); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) v[j]=std::max(v[j],(long)ref::deg(A.at(i,j))); return v; }
static void t_parlin(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+g.size(0,4),n=1+g.size(0,4),D=g.size(0,14); PMat A=gen_pmat(g,r,n,D); Mat<zz_pX> a=put(A),o=outm(g,r,n); VecLong cd=cdeg(A),tg=cd,pd(n); for(auto&x:tg) if(g.coin(1,3)) x+=(long)g.draw(6); long u=(long)g.draw(6); for(auto&x:pd) x=(long)g.draw(6); VecLong pc; long dinf=0; u64 k=g.draw(8); c.note("variant",k); c.tag("variant"+std::to_string(k)); c.note("r",r); c.note("n",n); c.note("cdeg",std::to_string(D));
  long sum=0; switch(k){ case 0: pc=column_partial_linearization(o,a,pd,tg); break; case 1: pc=column_partial_linearization_cdeg(o,a,pd); tg=cd; break; case 2: pc=column_partial_linearization(o,a,u,tg); pd.assign(n,u); break; case 3: pc=column_partial_linearization_cdeg(o,a,u); pd.assign(n,u); tg=cd; break; case 4: { long T=ref::mdeg(A)+(long)g.draw(4); pc=column_partial_linearization(o,a,u,T); pd.assign(n,u); tg.assign(n,T); break; }
   case 5: for(auto x:tg) sum+=x; pc=column_partial_linearization(o,a,tg); pd.assign(n,1+sum/n); break; case 6: tg=cd; for(auto x:tg) sum+=x; pc=column_partial_linearization_cdeg(o,a); pd.assign(n,1+sum/n); break; default: dinf=(long)g.draw(D+2); pc=column_partial_linearization(o,a,pd,tg,dinf); }
  PMat L=get(o); CHECK((long)pc.size()==n+1&&pc[0]==0&&pc[n]==L.c&&L.r==r,"linearization parameters do not match the matrix"); for(long j=0;j<n;j++){ CHECK(pc[j+1]>=pc[j],"linearization parameters decrease"); long w=pc[j+1]-pc[j]; if(w>1) NONTRIVIAL(c,true); for(long i=0;i<r;i++){ Poly t; for(long q=0;q<w;q++){ const Poly&e=L.at(i,pc[j]+q); CHECK((long)ref::deg(e)<=pd[j],"expanded column of degree above the linearization degree"); t=ref::padd(t,ref::pshl(e,q*(pd[j]+1))); } Poly want=A.at(i,j); want.erase(want.begin(),want.begin()+std::min<long>(dinf,want.size())); CHECK(ref::peq(t,want),"recombined column differs from the original"); } } ckm(a,A,"argument afterwards"); }
static void t_parmul(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=1+g.size(0,4),n=1+g.size(0,4),p=1+g.size(0,4),da=g.size(0,8),D=g.size(0,20); PMat A=gen_pmat(g,m,n,da+1),B=gen_pmat(g,n,p,D); Mat<zz_pX> a=put(A),b=put(B),o; u64 al=g.draw(4); Mat<zz_pX>*R=al==2?&a:al==3?&b:&o; if(al==1) o=outm(g,m,p); long pd=(long)g.draw(8); VecLong cd=cdeg(B); for(auto&x:cd) if(g.coin(1,3)) x+=(long)g.draw(5); u64 k=g.draw(5); c.note("variant",k); c.tag("variant"+std::to_string(k)); c.note("out",al); c.note("degA",ref::mdeg(A)); c.note("degB",ref::mdeg(B)); NONTRIVIAL(c,ref::mdeg(B)>pd&&ref::mdeg(A)>=0);
  if(k<4){ if(k==0) right_parlin_multiply(*R,a,b,pd,cd); else if(k==1) right_parlin_multiply(*R,a,b,pd); else if(k==2) right_parlin_multiply(*R,a,b,pd,ref::mdeg(B)+(long)g.draw(3)); else right_parlin_multiply(*R,a,b); ckm(*R,ref::mmul(A,B),"product through partial linearization"); }
  else { long dA=std::max(0L,ref::mdeg(A))+(g.coin(1,3)?(long)g.draw(4):0),dB=(long)g.draw(D+3); c.note("dA",dA); c.note("dB",dB); if(g.coin(1,3)) right_parlin_middle_product(*R,a,b,pd,ref::mdeg(B)+(long)g.draw(3),dA,dB); else right_parlin_middle_product(*R,a,b,pd,cd,dA,dB); ckm(*R,ref::mslice(ref::mmul(A,B),dA,dB+1),"middle product through partial linearization"); }
  if(R!=&a) ckm(a,A,"left factor afterwards"); if(R!=&b) ckm(b,B,"right factor afterwards"); }
// constant factors with every entry at or near p-1: the transforms stay saturated, so the accumulators of delayed reductions get their largest sums
static PMat sat(Gen&g,long r,long c){ PMat A(r,c); u64 k=g.coin(1,3)?4:1; Rng q(g.seed32()); for(auto&p:A.a){ p.assign(1,ref::P-1-q.below(std::min<u64>(k,ref::P))); ref::norm(p); } return A; }
static long satn(Gen&g){ return g.coin(1,2)?g.range(253,259):g.coin(1,2)?g.range(508,516):g.range(763,771); }
static Field satf(Gen&g){ if(g.coin(2,3)){ Field f; f.kind=F_FFT; f.idx=(int)g.draw(3); set_field(f); f.p=ref::P; return f; } return gen_field(g,F_FFT|F_USERFFT); }
static void t_sat(Gen&g,Case&c){ Field f=satf(g); note_field(c,f); long m=1+(long)g.draw(3),n=satn(g),db=(long)g.draw(3); PMat A=sat(g,m,n); Mat<zz_pX> a=put(A); u64 kind=g.draw(5); LM L; if(kind<3) L.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a,db)); else if(kind==3) L.reset(new mat_lzz_pX_lmultiplier_3_primes(a,db)); else L=get_lmultiplier(a,db); c.note("m",m); c.note("n",n); c.note("dB",db); c.note("kind",kind); NONTRIVIAL(c,true); for(long t=0;t<2;t++){ PMat B=sat(g,n,1+(long)g.draw(3)); Mat<zz_pX> b=put(B),o; L->multiply(o,b); ck_prod(g,A,B,get(o),"product of saturated factors"); } }
static void t_crt(Gen&g,Case&c){ long m=1+(long)g.draw(3),n=1+g.size(0,g.coin(1,6)?300:12),p=1+(long)g.draw(3),la=1+g.size(0,40),lb=1+g.size(0,40); if(g.coin(1,2)) lb=la; Field f=crt_edge_field(g,n,std::min(la,lb)); note_field(c,f); c.note("m",m); c.note("n",n); c.note("p",p); c.note("lenA",la); c.note("lenB",lb); NONTRIVIAL(c,true); PMat A=full_pmat(g,m,n,la); Mat<zz_pX> a=put(A); LM L; if(g.coin(1,4)) L=get_lmultiplier(a,lb-1); else L.reset(new mat_lzz_pX_lmultiplier_3_primes(a,lb-1)); for(long t=0;t<2;t++){ PMat B=full_pmat(g,n,p,t?1+(long)g.draw(lb):lb); Mat<zz_pX> b=put(B),o; L->multiply(o,b); ck_prod(g,A,B,get(o),"product with the largest coefficients"); } }
// the automatic choice, on both sides of its thresholds (numbers of rows, degree, kind of modulus), with very few columns
static void t_pick(Gen&g,Case&c){ Field f=g.coin(1,3)?gen_field(g,F_FFT|F_USERFFT):gen_field(g); note_field(c,f); long m=g.pick({20L,21L,40L,41L,99L,100L,101L,130L,199L,200L,201L,230L}),n=1+(long)g.draw(2),da=g.pick({0L,2L,30L,31L,90L,91L,149L,150L,151L,160L}),db=g.size(0,12); if(f.kind==F_FFT||f.kind==F_USERFFT) da=std::min(da,31L); c.note("m",m); c.note("n",n); c.note("dA",da); c.note("dB",db); PMat A=gm(g,m,n,da); Mat<zz_pX> a=put(A); LM L=get_lmultiplier(a,db); CHECK(L->NumRows()==m&&L->NumCols()==n&&L->degB()==db,"announced dimensions or degrees are wrong"); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=0); c.tag(m>200?"rows>200":m>100?"rows>100":"rows<=100"); for(long t=0;t<2;t++){ PMat B=gm(g,n,1+(long)g.draw(2),t?-1+(long)g.draw(db+2):db); Mat<zz_pX> b=put(B),o; if(t) o=outm(g,m,1); L->multiply(o,b); ck_prod(g,A,B,get(o),"product "+std::to_string(t)); } }
// long entries: NTL products of the entries as the oracle
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static void t_long(Gen&g,Case&c){ static const char*nm[]={"auto","auto","FFT_direct","FFT_matmul","geometric","3_primes"}; u64 kind=g.draw(6); long m=1+(long)g.draw(2),n=1+(long)g.draw(3),hi=kind==4?1200:5000,la=llen(g,150,hi),lb=g.coin(1,2)?la+g.range(-1,1):g.coin(1,3)?1+(long)g.draw(30):llen(g,150,hi); Field f=kind==2||kind==3?gen_field(g,F_FFT|F_USERFFT,1ULL<<26):kind==4?gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33):gen_field(g); note_field(c,f); if(kind==2||kind==3){ if(NextPowerOfTwo(la+lb)>zz_pInfo->MaxRoot) throw Discard(); } c.note("kind",nm[kind]); c.tag(std::string("kind:")+nm[kind]); c.note("m",m); c.note("n",n); c.note("lenA",la); c.note("lenB",lb); NONTRIVIAL(c,n>=2); Mat<zz_pX> a; a.SetDims(m,n); for(long i=0;i<m;i++) for(long j=0;j<n;j++) a[i][j]=lpoly(g,la);
  LM L; switch(kind){ case 2: L.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a,lb-1)); break; case 3: L.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a,lb-1)); break; case 4: L.reset(new mat_lzz_pX_lmultiplier_geometric(a,lb-1)); break; case 5: L.reset(new mat_lzz_pX_lmultiplier_3_primes(a,lb-1)); break; default: L=get_lmultiplier(a,lb-1); } for(int t=0;t<2;t++){ long p=1+(long)g.draw(2); Mat<zz_pX> b,o,w; b.SetDims(n,p); w.SetDims(m,p); for(long i=0;i<n;i++) for(long j=0;j<p;j++) b[i][j]=lpoly(g,t?1+(long)g.draw(lb):lb); for(long i=0;i<m;i++) for(long j=0;j<p;j++) for(long k=0;k<n;k++) w[i][j]+=a[i][k]*b[k][j]; L->multiply(o,b); CHECK(o==w,std::string(nm[kind])+": product of long entries wrong"); } }
std::vector<Sub> SUBS={{"selection",t_pick,600,10000,40},{"lmultiplier",t_lmul,6000,150000,40},{"saturated",t_sat,1500,20000,50},{"crt_edges",t_crt,3000,60000,50},{"join",t_join,4000,80000,200},{"linearize",t_parlin,6000,120000,200},{"linearized_product",t_parmul,6000,120000,100},{"long",t_long,200,5000,20}};
