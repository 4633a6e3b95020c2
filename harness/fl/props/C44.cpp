// C44: the Maple interface of flint-extras, run against a stand-in for Maple's external-call library
#include "../orient.h"
#include "kern.h"
#include <gmpxx.h>
#include <cstdarg>
#include <memory>
#include "mapml/mapml_conversion.h"
#include "mapml/mapml_matpoly_export.h"
extern "C" { ALGEB polynomial_rt(MKernelVector,ALGEB*); ALGEB matpoly_rt(MKernelVector,ALGEB*); ALGEB polymat_rt(MKernelVector,ALGEB*); }
const char*PROP_RULE="arguments are Maple objects as the Maple side builds them (vectors of coefficients, matrices of such vectors, lists, integers, strings), for any prime below 2^63, shape, degree and rank; every access of the interface is checked by the stand-in for bounds, type and initialisation, and the objects returned are read back and compared with what the reference computes; non-trivial: at least two rows and positive degree (matrices), degree at least 1 (polynomials), at least one computed term (recurrences)";
std::vector<std::string> ASSUMPTIONS={"Maple is not installed: flint-extras/src/mapml is compiled against harness/fl/maple/maplec.h, whose functions have the documented behaviour of Maple's and turn every wrong type or index into a failure","FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*","coefficients passed by the Maple side are reduced modulo the prime, matrices have at least one row and one column (round trips excepted), and the leading coefficient of a recurrence has no root among the indices used"};
std::vector<Known> KNOWN={};
// ---- Maple objects
struct mock_alg { enum K{UNSET,INT,STR,LIST,RT,FLT} k=UNSET; long n=0; double f=0; std::string s; std::vector<ALGEB> e; std::vector<M_INT> lo,hi; bool input=false; };
struct mock_kernel { std::vector<std::unique_ptr<mock_alg>> all; ALGEB mk(mock_alg::K k){ all.emplace_back(new mock_alg); all.back()->k=k; return all.back().get(); } bool own(ALGEB a){ for(auto&x:all) if(x.get()==a) return true; return false; } };
static MKernelVector cur=nullptr;
static ALGEB in(MKernelVector kv,ALGEB a,mock_alg::K k,const char*w){ CHECK(kv==cur&&kv,std::string(w)+": called with a kernel that is not the caller's"); CHECK(a!=nullptr,std::string(w)+": null object"); static const char*N[]={"unset","integer","string","list","rtable","float"}; CHECK(a->k==k,std::string(w)+": a Maple "+N[a->k]+" used as "+N[k]); return a; }
static size_t off(ALGEB rt,const M_INT*ix,const char*w){ size_t o=0; for(size_t d=0;d<rt->lo.size();d++){ CHECK(ix[d]>=rt->lo[d]&&ix[d]<=rt->hi[d],std::string(w)+": index "+std::to_string(ix[d])+" outside "+std::to_string(rt->lo[d])+".."+std::to_string(rt->hi[d])+" in dimension "+std::to_string(d+1)); o=o*(rt->hi[d]-rt->lo[d]+1)+(ix[d]-rt->lo[d]); } return o; }
extern "C" {
ALGEB ToMapleInteger(MKernelVector kv,M_INT i){ CHECK(kv==cur,"ToMapleInteger: wrong kernel"); ALGEB a=kv->mk(mock_alg::INT); a->n=i; return a; }
ALGEB ToMapleInteger64(MKernelVector kv,INTEGER64 i){ return ToMapleInteger(kv,i); }
ALGEB ToMapleBoolean(MKernelVector kv,long b){ return ToMapleInteger(kv,b); }
ALGEB ToMapleFloat(MKernelVector kv,double f){ ALGEB a=kv->mk(mock_alg::FLT); a->f=f; return a; }
ALGEB ToMapleString(MKernelVector kv,const char*s){ CHECK(kv==cur,"ToMapleString: wrong kernel"); ALGEB a=kv->mk(mock_alg::STR); a->s=s; return a; }
M_INT MapleToM_INT(MKernelVector kv,ALGEB s){ return in(kv,s,mock_alg::INT,"MapleToM_INT")->n; }
INTEGER64 MapleToInteger64(MKernelVector kv,ALGEB s){ return in(kv,s,mock_alg::INT,"MapleToInteger64")->n; }
INTEGER32 MapleToInteger32(MKernelVector kv,ALGEB s){ long n=in(kv,s,mock_alg::INT,"MapleToInteger32")->n; CHECK(n==(long)(int)n,"MapleToInteger32: "+std::to_string(n)+" is too large"); return (int)n; }
char*MapleToString(MKernelVector kv,ALGEB s){ return &in(kv,s,mock_alg::STR,"MapleToString")->s[0]; }
M_BOOL IsMapleInteger(MKernelVector,ALGEB s){ return s->k==mock_alg::INT; } M_BOOL IsMapleString(MKernelVector,ALGEB s){ return s->k==mock_alg::STR; } M_BOOL IsMapleList(MKernelVector,ALGEB s){ return s->k==mock_alg::LIST; } M_BOOL IsMapleRTable(MKernelVector,ALGEB s){ return s->k==mock_alg::RT; }
M_INT MapleNumArgs(MKernelVector kv,ALGEB e){ CHECK(kv==cur&&e,"MapleNumArgs: wrong kernel or object"); return e->k==mock_alg::LIST?(M_INT)e->e.size():1; }
ALGEB MapleListAlloc(MKernelVector kv,M_INT n){ CHECK(kv==cur,"MapleListAlloc: wrong kernel"); CHECK(n>=0,"MapleListAlloc: negative length"); ALGEB a=kv->mk(mock_alg::LIST); a->e.assign(n,nullptr); return a; }
void MapleListAssign(MKernelVector kv,ALGEB l,M_INT i,ALGEB v){ in(kv,l,mock_alg::LIST,"MapleListAssign"); CHECK(i>=1&&i<=(M_INT)l->e.size(),"MapleListAssign: index "+std::to_string(i)+" in a list of "+std::to_string(l->e.size())); CHECK(!l->input,"MapleListAssign: an argument is modified"); CHECK(v,"MapleListAssign: null value"); l->e[i-1]=v; }
ALGEB MapleListSelect(MKernelVector kv,ALGEB l,M_INT i){ in(kv,l,mock_alg::LIST,"MapleListSelect"); CHECK(i>=1&&i<=(M_INT)l->e.size(),"MapleListSelect: index "+std::to_string(i)+" in a list of "+std::to_string(l->e.size())); CHECK(l->e[i-1],"MapleListSelect: member never assigned"); return l->e[i-1]; }
void RTableGetDefaults(MKernelVector kv,RTableSettings*s){ CHECK(kv==cur,"RTableGetDefaults: wrong kernel"); *s=RTableSettings(); s->num_dimensions=0; s->subtype=RTABLE_ARRAY; s->order=RTABLE_FORTRAN; }
void RTableGetSettings(MKernelVector kv,RTableSettings*s,ALGEB rt){ RTableGetDefaults(kv,s); in(kv,rt,mock_alg::RT,"RTableGetSettings"); s->num_dimensions=(int)rt->lo.size(); s->subtype=rt->lo.size()==2?RTABLE_MATRIX:RTABLE_COLUMN; }
ALGEB RTableCreate(MKernelVector kv,RTableSettings*s,void*data,M_INT*b){ CHECK(kv==cur,"RTableCreate: wrong kernel"); CHECK(data==nullptr,"RTableCreate: unexpected data block"); int d=s->num_dimensions; CHECK(d>=1&&d<=8,"RTableCreate: "+std::to_string(d)+" dimensions"); if(s->subtype==RTABLE_MATRIX) CHECK(d==2,"RTableCreate: a Matrix with "+std::to_string(d)+" dimensions"); else if(s->subtype==RTABLE_COLUMN||s->subtype==RTABLE_ROW) CHECK(d==1,"RTableCreate: a Vector with "+std::to_string(d)+" dimensions"); ALGEB a=kv->mk(mock_alg::RT); size_t n=1; for(int i=0;i<d;i++){ a->lo.push_back(b[2*i]); a->hi.push_back(b[2*i+1]); CHECK(s->subtype==RTABLE_ARRAY||b[2*i]==1,"RTableCreate: first index "+std::to_string(b[2*i])); CHECK(b[2*i+1]>=b[2*i]-1&&b[2*i+1]<(1L<<40),"RTableCreate: bad bounds"); n*=b[2*i+1]-b[2*i]+1; } a->e.assign(n,nullptr); return a; }
RTableData RTableSelect(MKernelVector kv,ALGEB rt,M_INT*ix){ in(kv,rt,mock_alg::RT,"RTableSelect"); RTableData d; d.dag=rt->e[off(rt,ix,"RTableSelect")]; if(!d.dag) d.dag=ToMapleInteger(kv,0); return d; }
RTableData RTableAssign(MKernelVector kv,ALGEB rt,M_INT*ix,RTableData v){ in(kv,rt,mock_alg::RT,"RTableAssign"); CHECK(!rt->input,"RTableAssign: an argument is modified"); CHECK(kv->own(v.dag),"RTableAssign: not a Maple object"); rt->e[off(rt,ix,"RTableAssign")]=v.dag; return v; }
M_INT RTableUpperBound(MKernelVector kv,ALGEB rt,M_INT d){ in(kv,rt,mock_alg::RT,"RTableUpperBound"); CHECK(d>=1&&d<=(M_INT)rt->hi.size(),"RTableUpperBound: dimension "+std::to_string(d)+" of an rtable with "+std::to_string(rt->hi.size())); return rt->hi[d-1]; }
M_INT RTableLowerBound(MKernelVector kv,ALGEB rt,M_INT d){ in(kv,rt,mock_alg::RT,"RTableLowerBound"); CHECK(d>=1&&d<=(M_INT)rt->lo.size(),"RTableLowerBound: no such dimension"); return rt->lo[d-1]; }
M_INT RTableNumDimensions(MKernelVector kv,ALGEB rt){ return (M_INT)in(kv,rt,mock_alg::RT,"RTableNumDimensions")->lo.size(); } M_INT RTableNumElements(MKernelVector kv,ALGEB rt){ return (M_INT)in(kv,rt,mock_alg::RT,"RTableNumElements")->e.size(); }
void MapleALGEB_Printf(MKernelVector,const char*,...){} void MaplePrintf(MKernelVector,const char*,...){}
void MapleRaiseError(MKernelVector,const char*m){ FAIL(std::string("error raised: ")+m); }
}
// ---- building arguments, reading results
struct Kern { mock_kernel k; std::vector<ALGEB> a{nullptr}; Kern(){ cur=&k; } ~Kern(){ cur=nullptr; } operator MKernelVector(){ return &k; }
  ALGEB num(long n){ ALGEB x=k.mk(mock_alg::INT); x->n=n; return x; } ALGEB str(const std::string&s){ ALGEB x=k.mk(mock_alg::STR); x->s=s; return x; }
  ALGEB list(const VL&v){ ALGEB x=k.mk(mock_alg::LIST); for(long t:v) x->e.push_back(num(t)); x->input=true; return x; }
  ALGEB vec(const std::vector<ALGEB>&v){ ALGEB x=k.mk(mock_alg::RT); x->lo={1}; x->hi={(M_INT)v.size()}; x->e=v; x->input=true; return x; }
  ALGEB poly(const Poly&p,long extra){ std::vector<ALGEB> v; for(u64 c:p) v.push_back(num((long)c)); for(long t=0;t<extra;t++) v.push_back(num(0)); return vec(v); }
  ALGEB mat(Gen&g,const PMat&A){ Rng q(g.seed32()); int st=(int)q.below(3); ALGEB x=k.mk(mock_alg::RT); x->lo={1,1}; x->hi={A.r,A.c}; for(auto&p:A.a) x->e.push_back(poly(p,p.empty()?(st==0?0:1):st==2&&q.below(4)==0?1+(long)q.below(3):0)); x->input=true; return x; }
  ALGEB*args(){ a.push_back(nullptr); return a.data(); } };
// locals of the next call start from values that look like pointers to large integers
__attribute__((noinline)) static void sully(){ volatile u64 b[3000]; for(auto&x:b) x=0x4141414141414141ULL; }
typedef ALGEB (*fn_t)(MKernelVector,ALGEB*);
static ALGEB call(fn_t f,Kern&K){ ALGEB*a=K.args(); sully(); return f(K,a); }
static ALGEB got(ALGEB a,mock_alg::K k,const std::string&w){ CHECK(a&&cur->own(a),w+": what is returned is not a Maple object"); CHECK(a->k==k,w+": returns an object of the wrong kind"); return a; }
static ALGEB mem(ALGEB l,size_t i,size_t n,const std::string&w){ got(l,mock_alg::LIST,w); CHECK(l->e.size()==n,w+": list of "+std::to_string(l->e.size())+" instead of "+std::to_string(n)); CHECK(l->e[i],w+": member "+std::to_string(i+1)+" never assigned"); return l->e[i]; }
static VL ints(ALGEB l,const std::string&w){ got(l,mock_alg::LIST,w); VL v; for(size_t i=0;i<l->e.size();i++) v.push_back(got(mem(l,i,l->e.size(),w),mock_alg::INT,w)->n); return v; }
static Poly rpoly(ALGEB l,const std::string&w){ Poly p; for(long x:ints(l,w)){ CHECK(x>=0&&(u64)x<ref::P,w+": coefficient "+std::to_string(x)+" is not reduced"); p.push_back((u64)x); } ref::norm(p); return p; }
static PMat rmat(ALGEB a,const std::string&w){ got(a,mock_alg::RT,w); CHECK(a->lo.size()==2,w+": not a Matrix"); PMat A(a->hi[0],a->hi[1]); for(size_t i=0;i<a->e.size();i++){ CHECK(a->e[i],w+": an entry of the matrix is never assigned"); A.a[i]=rpoly(a->e[i],w); } return A; }
static Field mfield(Gen&g,Case&c){ Field f=gen_field(g); if(f.p>>63){ f.p=g.coin(1,2)?prevprime((1ULL<<63)-1):nextprime((1ULL<<62)+g.draw(1ULL<<61)); set_field(f); } note_field(c,f); return f; }
static void dims(Case&c,const PMat&A){ std::ostringstream o; o<<A.r<<"x"<<A.c<<" deg "<<ref::mdeg(A); c.note("A",o.str()); }
static PMat mix(Gen&g,long m,long n,long d){ return m*n?gen_F(g,m,n,std::max(1L,d)):PMat(m,n); }
static void rt(Gen&g,Case&c){ mfield(g,c); long m=g.size(0,5),n=g.size(0,5); PMat A=gen_pmat(g,m,n,g.size(0,12)); if(g.coin(1,4)) for(auto&p:A.a) for(auto&x:p) x=ref::P-1; dims(c,A); NONTRIVIAL(c,m>=2&&n>=1&&ref::mdeg(A)>=1);
  for(int k=0;k<2;k++){ Kern K; std::string w=k?"matpoly_rt":"polymat_rt"; K.a.push_back(K.mat(g,A)); K.a.push_back(K.num((long)ref::P)); PMat B=rmat(call(k?matpoly_rt:polymat_rt,K),w); CHECK(B.r==A.r&&B.c==A.c,w+": shape changed"); CHECK(ref::meq(A,B),w+": the matrix that comes back is another one"); }
  { Kern K; Poly p=gen_poly(g,g.size(0,40)); K.a.push_back(K.poly(p,(long)g.draw(3))); K.a.push_back(K.num((long)ref::P)); Poly q=rpoly(call(polynomial_rt,K),"polynomial_rt"); CHECK(ref::peq(p,q),"polynomial_rt: "+ref::pstr(q)+" instead of "+ref::pstr(p)); } }
static void det(Gen&g,Case&c){ mfield(g,c); long n=1+g.size(0,5); PMat A=mix(g,n,n,g.size(0,5)); dims(c,A); Poly d=ref::mdet(A); c.tag(ref::deg(d)<0?"singular":"nonsingular"); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1); Kern K; K.a.push_back(K.mat(g,A)); K.a.push_back(K.num((long)ref::P)); Poly e=rpoly(call(pm_determinant,K),"pm_determinant"); CHECK(ref::peq(d,e),"pm_determinant: "+ref::pstr(e)+" instead of "+ref::pstr(d)); }
static void approx(Gen&g,Case&c){ mfield(g,c); u64 k=g.draw(4); bool diff=k>=2,pm=k&1; static const char*N[]={"pm_matrix_mbasis","pm_matrix_pmbasis","pm_diff_mbasis (MBasis)","pm_diff_mbasis (PMBasis)"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w); bool lg=g.coin(1,8); long m=1+g.size(0,5),n=diff?1:1+g.size(0,3),ord=lg?25+(long)g.draw(30):1+g.size(0,9); if(lg){ m=1+(long)g.draw(3); n=diff?1:1+(long)g.draw(2); } PMat F; Poly p; if(diff){ p=gen_poly(g,1+(long)g.draw(ord+3)); F=PMat(m,1); Poly q=p; for(long i=0;i<m;i++){ F.at(i,0)=q; Poly r; for(size_t t=1;t<q.size();t++) r.push_back(ref::mul(q[t],t%ref::P)); ref::norm(r); q=r; } } else F=gen_series(g,m,n,std::max(1L,ord+(long)g.draw(3)-1)); VL s=gen_shift(g,m,g.coin(1,4)?2*ord:3); dims(c,F); c.note("shift",vstr(s)); c.note("order",ord); NONTRIVIAL(c,m>=2&&ord>=2&&ref::mdeg(F)>=1);
  Kern K; K.a.push_back(K.list(s)); K.a.push_back(diff?K.poly(p,0):K.mat(g,F)); K.a.push_back(K.num(ord)); K.a.push_back(K.num((long)ref::P)); if(diff) K.a.push_back(K.str(pm?"PMBasis":"MBasis")); ALGEB r=call(diff?pm_diff_mbasis:pm?pm_matrix_pmbasis:pm_matrix_mbasis,K); PMat P=rmat(mem(r,0,2,w),w); VL d=ints(mem(r,1,2,w),w); ck_app(P,F,VL(F.c,ord),s,3,d,w); }
static void forms(Gen&g,Case&c){ mfield(g,c); long m=1+g.size(0,5),n=1+g.size(0,5); PMat A=mix(g,m,n,g.size(0,5)); VL s=gen_shift(g,n,4); for(auto&x:s) if(x<-100000||x>100000) x=0; dims(c,A); c.note("shift",vstr(s)); long rk=ref::mrank(A); c.tag(rk==std::min(m,n)?"full-rank":"rank-deficient"); NONTRIVIAL(c,m>=2&&ref::mdeg(A)>=1); Kern K; std::string w="pm_weakpopov"; K.a.push_back(K.mat(g,A)); K.a.push_back(K.list(s)); K.a.push_back(K.num((long)ref::P)); ALGEB r=call(pm_weakpopov,K); PMat B=rmat(mem(r,0,1,w),w); CHECK(B.r==m&&B.c==n,w+": shape changed"); std::vector<long> nz; for(long i=0;i<m;i++){ bool z=true; for(long j=0;j<n;j++) if(ref::deg(B.at(i,j))>=0) z=false; if(!z) nz.push_back(i); } CHECK((long)nz.size()==rk,w+": "+std::to_string(nz.size())+" non-zero rows for a matrix of rank "+std::to_string(rk)); PMat S(rk,n); for(long i=0;i<rk;i++) for(long j=0;j<n;j++) S.at(i,j)=B.at(nz[i],j); CHECK(f_ord(S,s),w+": the non-zero rows are not in ordered weak Popov form for shift "+vstr(s));
  // same module: every row of A reduces to zero by the rows of S, and the minors have the same content degree
  if(rk){ PMat R=A; VL ind,dg; rpiv(S,s,ind,dg); for(long i=0;i<m;i++) for(;;){ VL a,b; PMat row=ref::msub_block(R,i,0,1,n); rpiv(row,s,a,b); if(a[0]<0) break; long k=-1; for(long t=0;t<rk;t++) if(ind[t]==a[0]) k=t; CHECK(k>=0&&dg[k]<=b[0],w+": row "+std::to_string(i)+" of the input is not a combination of the rows returned"); u64 q=ref::neg(ref::mul(R.at(i,a[0])[b[0]],ref::inv(S.at(k,a[0])[dg[k]]))); for(long j=0;j<n;j++) R.at(i,j)=ref::padd(R.at(i,j),ref::pshl(ref::pscale(S.at(k,j),q),b[0]-dg[k])); }
    if(rk==n&&rk==m){ Poly a=ref::mdet(A),b=ref::mdet(B); CHECK(ref::deg(a)==ref::deg(b),w+": the rows returned generate a larger module"); }
    else { Rng q(g.seed32()); if(ref::P>(1ULL<<40)){ PMat X=S; CMat U(n,rk); for(auto&x:U.a) x=q()%ref::P; Poly d=ref::mdet(ref::mmul(X,ref::mconst(U))); CMat W(rk,m); PMat G; Poly gc; for(int t=0;t<4;t++){ PMat L(rk,m); for(auto&e:L.a){ e={q()%ref::P,q()%ref::P}; ref::norm(e); } gc=ref::pgcd(gc,ref::mdet(ref::mmul(ref::mmul(L,A),ref::mconst(U)))); } CHECK(ref::deg(gc)==ref::deg(d),w+": the rows returned generate another module (degree "+std::to_string(ref::deg(d))+" instead of "+std::to_string(ref::deg(gc))+")"); } } } }
static void kernels(Gen&g,Case&c){ mfield(g,c); u64 k=g.draw(3); static const char*N[]={"pm_row_kernel","pm_kernel","pm_nullspace"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w); long m=1+g.size(0,6),n=1+g.size(0,4); PMat F=mix(g,m,n,1+g.size(0,5)); VL s=g.coin(1,3)?rrdeg(F,VL(n,0)):gen_shift(g,m,g.coin(1,4)?15:3); for(auto&x:s) if(x<-100000) x=0; dims(c,F); c.note("shift",vstr(s)); long rk=ref::mrank(F); NONTRIVIAL(c,rk>0&&rk<m&&ref::mdeg(F)>=1); c.tag(rk==std::min(m,n)?"full-rank":"rank-deficient");
  // F and s describe the row-lower problem; row kernels are computed in the upper orientation, column kernels in theirs
  orientation_t o=k==0?ROW_UPPER:COL_UPPER; PMat X=F; if(!isplain(o)) for(long i=0;i<m;i++) for(long j=0;j<n;j++) X.at(i,j)=F.at(m-1-i,j); PMat Y=isrow(o)?X:ref::mtr(X); VL so=isplain(o)?s:vrev(s); Kern K; K.a.push_back(K.mat(g,Y)); if(k<2) K.a.push_back(K.list(so)); K.a.push_back(K.num((long)ref::P)); ALGEB r=call(k==0?pm_row_kernel:k==1?pm_kernel:pm_nullspace,K); long nz=got(mem(r,0,2,w),mock_alg::INT,w)->n; PMat B=rmat(mem(r,1,2,w),w); CHECK(nz==m-rk,w+": nullity "+std::to_string(nz)+" instead of "+std::to_string(m-rk)); CHECK(k==0?B.r==nz&&B.c==m:B.r==m&&B.c==nz,w+": basis of shape "+std::to_string(B.r)+"x"+std::to_string(B.c)); PMat L=isrow(o)?B:ref::mtr(B); if(!isplain(o)) L=mrev(L);
  if(k<2) ck_ker(g,L,F,s,3,w); else { CHECK(ref::mdeg(ref::mmul(L,F))<0,w+": not in the nullspace"); CHECK(nz==0||ref::mrank(L)==nz,w+": vectors returned are dependent"); } }
static mpq_class rndq(Rng&q,int bits,bool nz){ for(;;){ mpz_class a=0; for(int b=0;b<bits;b+=32){ a<<=32; a+=(unsigned long)(q()>>32); } if(bits) a>>=(bits+31)/32*32-bits; if(q.below(2)) a=-a; mpz_class d=q.below(3)?1:1+(unsigned long)q.below(50); mpq_class r(a,d); r.canonicalize(); if(q.below(5)==0) r=0; if(!nz||sgn(r)) return r; } }
static void recurrence(Gen&g,Case&c){ long m=1+g.size(0,4),N=g.size(0,25); Rng q(g.seed32()); int bits=(int)g.pick({1L,2L,4L,8L,60L,70L,130L}); c.note("order",m); c.note("terms",N+1); c.note("bits",bits); c.tag(N+1<m?"fewer terms than conditions":N+1==m?"conditions only":"computed terms"); NONTRIVIAL(c,N+1>m); std::vector<std::vector<mpq_class>> P(m+1); auto ev=[&](const std::vector<mpq_class>&p,long x){ mpq_class r=0; for(long i=(long)p.size()-1;i>=0;i--) r=r*x+p[i]; return r; };
  for(long i=0;i<=m;i++){ long d=(long)q.below(4); P[i].resize(d+1); for(auto&x:P[i]) x=rndq(q,bits,false); } for(int t=0;;t++){ bool ok=true; for(long k=m;k<=N;k++) if(sgn(ev(P[m],k-m))==0) ok=false; if(ok) break; if(t>20) P[m]={mpq_class(1)}; else for(auto&x:P[m]) x=rndq(q,bits,true); } std::vector<mpq_class> L; for(long i=0;i<m;i++) L.push_back(rndq(q,bits,false)); std::vector<mpq_class> init=L; for(long k=m;k<=N;k++){ mpq_class t=0; for(long i=0;i<m;i++) t+=L[k-m+i]*ev(P[i],k-m); L.push_back(-t/ev(P[m],k-m)); } L.resize(N+1);
  Kern K; K.a.push_back(K.num(m)); std::vector<ALGEB> v; for(auto&p:P){ std::vector<ALGEB> e; for(auto&x:p) e.push_back(K.str(x.get_str())); v.push_back(K.vec(e)); } K.a.push_back(K.vec(v)); K.a.push_back(K.num(N)); for(auto&x:init) K.a.push_back(K.str(x.get_str())); ALGEB r=call(pm_coeffs,K); for(long i=0;i<=N;i++){ ALGEB e=got(mem(r,i,N+1,"pm_coeffs"),mock_alg::STR,"pm_coeffs"); CHECK(e->s==L[i].get_str(),"pm_coeffs: term "+std::to_string(i)+" is "+e->s.substr(0,60)+" instead of "+L[i].get_str().substr(0,60)); } }
std::vector<Sub> SUBS={{"roundtrip",rt,30000,400000,400},{"determinant",det,20000,300000,400},{"approximants",approx,20000,300000,300},{"forms",forms,20000,300000,300},{"kernels",kernels,20000,300000,300},{"recurrence",recurrence,20000,300000,300}};
