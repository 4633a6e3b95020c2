#include "../orient.h"
#include "kern.h"
const char*PROP_RULE="a case is non-trivial when the matrix has at least two rows and positive degree, and (approximants) order at least 2 or (kernels) rank strictly between 0 and the number of rows";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which passes all of flint-extras' own tests","outputs are initialised with full dimensions, as the library's own tests do","the verification routines print on standard output; what they print is not checked, and nmod_poly_mat_is_kernel is documented as not checking generation: it may accept a matrix of the right size and form whose rows lie in the kernel"};
std::vector<Known> KNOWN={};
#include <unistd.h>
#include <fcntl.h>
// the library reports on standard output: keep it out of the way
struct Hush { int s; Hush(){ fflush(stdout); s=dup(1); int n=open("/dev/null",O_WRONLY); dup2(n,1); close(n); } ~Hush(){ fflush(stdout); dup2(s,1); close(s); } };
static void note_in(Case&c,const PMat&F,const VL&s,long ord){ std::ostringstream o; o<<F.r<<"x"<<F.c<<" deg "<<ref::mdeg(F); c.note("F",o.str()); c.note("shift",vstr(s)); if(ord>=0) c.note("order",ord); }
static void app_in(Gen&g,Case&c,PMat&F,VL&s,long&ord){ Field f=gen_field(g); note_field(c,f); long m,n; u64 z=g.draw(10); if(z<6){ m=1+g.size(0,5); n=1+g.size(0,4); ord=1+(long)g.size(0,9); } else if(z<9){ m=1+(long)g.draw(4); n=1+(long)g.draw(3); ord=25+(long)g.draw(60); } else { m=1+(long)g.draw(9); n=1+(long)g.draw(9); ord=1+(long)g.draw(12); } if(g.coin(1,25)) n=0; F=gen_series(g,m,n,std::max(1L,g.coin(1,3)?1+(long)g.draw(4):ord+(long)g.draw(3)-1)); s=gen_shift(g,m,g.coin(1,4)?2*ord:3); note_in(c,F,s,ord); NONTRIVIAL(c,m>=2&&ord>=2&&ref::mdeg(F)>=1); }
static void approximants(Gen&g,Case&c){ PMat F; VL s; long ord; app_in(g,c,F,s,ord); FPM fm(g,F),ap(g,gen_pmat(g,F.r,F.r,3)); std::vector<slong> sh(s.begin(),s.end()); sh.push_back(-777); u64 k=g.draw(3); static const char*nm[]={"mbasis","pmbasis","mbasis on matrix polynomials"}; c.note("alg",nm[k]); c.tag(std::string("alg:")+nm[k]); PMat P;
  if(k==0){ nmod_poly_mat_mbasis(ap,sh.data(),fm,ord); P=ap.val(); } else if(k==1){ nmod_poly_mat_pmbasis(ap,sh.data(),fm,ord); P=ap.val(); } else { nmod_mat_poly_t a,b; nmod_mat_poly_init(a,F.r,F.r,ref::P); nmod_mat_poly_init(b,F.r,F.c,ref::P); nmod_mat_poly_set_from_poly_mat(b,fm); nmod_mat_poly_mbasis(a,sh.data(),b,ord); P=PMat(F.r,F.r); for(long t=0;t<a->length;t++) for(long i=0;i<F.r;i++) for(long j=0;j<F.r;j++) P.at(i,j).push_back(nmod_mat_poly_entry(a,t,i,j)); for(auto&p:P.a) ref::norm(p); nmod_mat_poly_clear(a); nmod_mat_poly_clear(b); }
  CHECK(sh.back()==-777,"shift written beyond its length"); sh.pop_back(); fm.kept(nm[k]); ck_app(P,F,VL(F.c,ord),s,3,VL(sh.begin(),sh.end()),nm[k]); }
// reference basis, computed here: iterative algorithm on residuals, one column and one coefficient at a time
static PMat ref_app(const PMat&F,long ord,const VL&s0){ long m=F.r,n=F.c; PMat P=ref::mident(m),R=ref::mtrunc(F,ord); VL s=s0; for(long j=0;j<n;j++) for(long t=0;t<ord;t++){ long p=-1; for(long i=0;i<m;i++) if(ref::coef(R.at(i,j),t)&&(p<0||s[i]<s[p])) p=i; if(p<0) continue; u64 iv=ref::inv(ref::coef(R.at(p,j),t)); for(long i=0;i<m;i++) if(i!=p&&ref::coef(R.at(i,j),t)){ u64 q=ref::neg(ref::mul(ref::coef(R.at(i,j),t),iv)); for(long k=0;k<n;k++) R.at(i,k)=ref::padd(R.at(i,k),ref::pscale(R.at(p,k),q)); for(long k=0;k<m;k++) P.at(i,k)=ref::padd(P.at(i,k),ref::pscale(P.at(p,k),q)); } for(long k=0;k<n;k++) R.at(p,k)=ref::ptrunc(ref::pshl(R.at(p,k),1),ord); for(long k=0;k<m;k++) P.at(p,k)=ref::pshl(P.at(p,k),1); s[p]++; } return P; }
static void mutate(Gen&g,PMat&P,std::string&st){ Rng q(g.seed32()); if(P.r==0||P.c==0){ st="none"; return; } long i=(long)q.below(P.r),k=(long)q.below(P.r),j=(long)q.below(P.c); switch(g.draw(9)){ case 0: case 1: st="none"; break; case 2: { st="row times (x+a)"; Poly l{1+q()%(ref::P-1),1%ref::P}; for(long t=0;t<P.c;t++) P.at(i,t)=ref::pmul(P.at(i,t),l); break; } case 3: st="row times x"; for(long t=0;t<P.c;t++) P.at(i,t)=ref::pshl(P.at(i,t),1); break; case 4: st="entry changed"; P.at(i,j)=ref::padd(P.at(i,j),Poly{1%ref::P}); break; case 5: st="rows swapped"; for(long t=0;t<P.c;t++) std::swap(P.at(i,t),P.at(k,t)); break; case 6: { st="row scaled"; u64 v=1+q()%(ref::P-1); for(long t=0;t<P.c;t++) P.at(i,t)=ref::pscale(P.at(i,t),v); break; } case 7: { st="row added to another"; if(i!=k){ long e=(long)q.below(2); for(long t=0;t<P.c;t++) P.at(i,t)=ref::padd(P.at(i,t),ref::pshl(P.at(k,t),e)); } break; } default: st="row zeroed"; for(long t=0;t<P.c;t++) P.at(i,t).clear(); } }
static void app_verify(Gen&g,Case&c){ PMat F; VL s; long ord; app_in(g,c,F,s,ord); if(ord>20){ ord=1+ord%20; F=ref::mtrunc(F,ord+1); c.note("order-used",ord); } long m=F.r; PMat P=ref_app(F,ord,s); std::string st; mutate(g,P,st);
  // the iterative basis is reduced, and ordered weak Popov because ties go to the first row of least degree
  if(g.coin(1,12)){ st+="+wrong size"; if(g.coin(1,2)&&m>1) P=ref::msub_block(P,0,0,m-1,m); else { PMat Q(m+1,m+1); for(long i=0;i<m;i++) for(long j=0;j<m;j++) Q.at(i,j)=P.at(i,j); Q.at(m,m)=Poly{1%ref::P}; P=Q; } }
  c.note("candidate",st); c.tag("cand:"+st.substr(0,14)); bool want=P.r==m&&P.c==m; VL s2=s; if(want){ want=f_ord(P,s); PMat R=ref::mtrunc(ref::mmul(P,F),ord); for(auto&p:R.a) if(ref::deg(p)>=0) want=false; if(want){ VL d=rrdeg(P,s); want=vsum(d)-vsum(s)==app_codim(F,VL(F.c,ord)); } } else s2.resize(std::max(P.c,m),0); c.tag(want?"true":"false");
  FPM fp(g,P),fm(g,F); int got; { Hush h; got=nmod_poly_mat_is_approximant_basis(fp,fm,ord,s2.data(),ROW_LOWER); } CHECK((got!=0)==want,std::string("is_approximant_basis answers ")+std::to_string(got)+" for a matrix that is "+(want?"":"not ")+"an ordered weak Popov approximant basis ("+st+")"); fp.kept("verification"); fm.kept("verification"); }
static void ker_in(Gen&g,Case&c,PMat&F,VL&s,long&rk){ Field f=gen_field(g); note_field(c,f); long m,n,d; u64 z=g.draw(10); if(z<7){ m=1+g.size(0,6); n=1+g.size(0,4); d=1+g.size(0,5); } else if(z<9){ m=2+(long)g.draw(8); n=1+(long)g.draw(m/2); d=1+(long)g.draw(8); } else { m=1+(long)g.draw(5); n=1+(long)g.draw(2); d=8+(long)g.draw(24); } if(g.coin(1,30)) m=0; if(g.coin(1,30)) n=0; F=m*n?gen_F(g,m,n,d):PMat(m,n); if(m*n&&g.coin(1,6)){ long i=(long)g.draw(m); for(long j=0;j<n;j++) F.at(i,j)=ref::ptrunc(F.at(i,j),1); } if(g.coin(1,4)) s=rrdeg(F,VL(n,0)); else s=gen_shift(g,m,g.coin(1,4)?3*d:3); for(auto&x:s) if(x<-100000) x=0; note_in(c,F,s,-1); rk=m*n?ref::mrank(F):0; c.note("rank",rk); NONTRIVIAL(c,rk>0&&rk<m&&ref::mdeg(F)>=1); c.tag(rk==std::min(m,n)?"full-rank":"rank-deficient"); }
static void kernels(Gen&g,Case&c){ PMat F; VL s; long rk; ker_in(g,c,F,s,rk); u64 a=g.draw(5); long m=F.r; 
  if(a<2){ const char*w=a?"kernel via approximants":"kernel (ZLS)"; c.note("alg",w); c.tag(std::string("alg:")+w); FPM fm(g,F),K(g,gen_pmat(g,m,m,3)); std::vector<slong> sh(s.begin(),s.end()),pi(m+1,-777); sh.push_back(-777); slong nu=a?nmod_poly_mat_kernel_via_approx(K,pi.data(),sh.data(),fm):nmod_poly_mat_kernel_zls_approx(K,pi.data(),sh.data(),fm); CHECK(nu>=0&&nu<=m,std::string(w)+": nullity "+std::to_string(nu)); CHECK(pi[m]==-777&&sh[m]==-777,std::string(w)+": wrote beyond the length of its arrays"); PMat k=ref::msub_block(K.val(),0,0,nu,m); ck_ker(g,k,F,s,3,w); if(a) fm.kept(w); else fm.margin(w); VL i0,e0,d0=rrdeg(k,s); rpiv(k,s,i0,e0); CHECK(VL(sh.begin(),sh.begin()+nu)==d0,std::string(w)+": degrees returned "+vstr(VL(sh.begin(),sh.begin()+nu))+" instead of "+vstr(d0)); CHECK(VL(pi.begin(),pi.begin()+nu)==i0,std::string(w)+": pivots returned "+vstr(VL(pi.begin(),pi.begin()+nu))+" instead of "+vstr(i0)); return; }
  // the interface: F and s describe the row-lower problem
  orientation_t o=ORS[g.draw(4)]; c.note("alg",std::string("interface ")+oname(o)); c.tag(std::string("alg:")+oname(o)); std::string w=std::string("kernel (")+oname(o)+")"; PMat X=F; if(!isplain(o)){ X=PMat(F.r,F.c); for(long i=0;i<F.r;i++) for(long j=0;j<F.c;j++) X.at(i,j)=F.at(F.r-1-i,j); } PMat Y=isrow(o)?X:ref::mtr(X); bool ns=g.coin(1,4),np=g.coin(1,4); if(ns){ s=rrdeg(F,VL(F.c,0)); for(auto&x:s) if(x<0) x=0; } VL so=isplain(o)?s:vrev(s);
  FPM fm(g,Y),K(g,gen_pmat(g,m,m,3)); std::vector<slong> sh(so.begin(),so.end()),pi(m+1,-777); sh.push_back(-777); slong nu=nmod_poly_mat_kernel(K,np?nullptr:pi.data(),ns?nullptr:sh.data(),fm,(poly_mat_form_t)g.draw(4),o); CHECK(nu>=0&&nu<=m,w+": nullity "+std::to_string(nu)); CHECK(pi[m]==-777&&sh[m]==-777,w+": wrote beyond the length of its arrays"); fm.kept(w); PMat k0=K.val(); PMat k=isrow(o)?ref::msub_block(k0,0,0,nu,m):ref::mtr(ref::msub_block(k0,0,0,m,nu)); if(!isplain(o)) k=mrev(k);
  ck_ker(g,k,F,s,3,w); VL i0,e0,d0=rrdeg(k,s); rpiv(k,s,i0,e0); if(!isplain(o)) d0=vrev(d0); if(!ns) CHECK(VL(sh.begin(),sh.begin()+nu)==d0,w+": degrees returned "+vstr(VL(sh.begin(),sh.begin()+nu))+" instead of "+vstr(d0)); if(!np) CHECK(pivlow(VL(pi.begin(),pi.begin()+nu),m,o)==i0,w+": pivots returned "+vstr(VL(pi.begin(),pi.begin()+nu))+" are not "+vstr(i0)+" brought to the orientation"); }
static void ker_verify(Gen&g,Case&c){ PMat F; VL s; long rk; ker_in(g,c,F,s,rk); long m=F.r; if(m==0||F.c==0) return; orientation_t o=ORS[g.draw(4)]; c.tag(oname(o)); FPM f0(F); PMat K; { FPM K0(PMat(m,m)); std::vector<slong> sh(s.begin(),s.end()),pi(m+1); slong nu=nmod_poly_mat_kernel_via_approx(K0,pi.data(),sh.data(),f0); K=ref::msub_block(K0.val(),0,0,nu,m); } std::string st="none"; mutate(g,K,st); if(g.coin(1,10)){ st+="+wrong size"; if(g.coin(1,2)&&K.r>0) K=ref::msub_block(K,0,0,K.r-1,K.c); else { PMat Q(K.r+1,K.c); for(long i=0;i<K.r;i++) for(long j=0;j<K.c;j++) Q.at(i,j)=K.at(i,j); if(K.r&&g.coin(1,2)) for(long j=0;j<K.c;j++) Q.at(K.r,j)=ref::pshl(K.at(0,j),1); K=Q; } } int form=(int)g.draw(5); c.note("candidate",st); c.note("form",form); bool size=K.r==m-rk,in=ref::mdeg(ref::mmul(K,F))<0,fo=f_form(form,K,s); bool gen=size&&in&&fo&&ref::mrank(K)==K.r&&primitive(g,K); bool must=size&&in&&fo; 
  PMat X=F; if(!isplain(o)){ for(long i=0;i<F.r;i++) for(long j=0;j<F.c;j++) X.at(i,j)=F.at(F.r-1-i,j); } PMat Y=isrow(o)?X:ref::mtr(X),Z=fromlow(K,o); VL so=isplain(o)?s:vrev(s); FPM fk(g,Z),fm(g,Y); int got; { Hush h; got=nmod_poly_mat_is_kernel(fk,so.data(),fm,(poly_mat_form_t)form,o); } c.tag(gen?"true":must?"not generating":"false"); if(gen) CHECK(got!=0,std::string("is_kernel rejects a kernel basis in the form asked for (")+fname(form)+", "+oname(o)+")"); if(!must) CHECK(got==0,std::string("is_kernel accepts a matrix that ")+(!size?"has the wrong number of vectors":!in?"is not in the kernel":"does not have the form asked for")+" ("+st+", "+oname(o)+")"); fk.kept("verification"); fm.kept("verification"); }
std::vector<Sub> SUBS={{"approximants",approximants,60000,1000000,400},{"app_verify",app_verify,60000,1000000,400},{"kernels",kernels,80000,1200000,400},{"ker_verify",ker_verify,60000,1000000,400}};
