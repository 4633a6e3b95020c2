// C13: bivariate polynomials and resultants
#include "h.h"
#include <cmath>
#include "lzz_pXY.h"
using namespace NTL; using namespace PML; using ref::Poly;
const char* PROP_RULE="random bivariate polynomials (y-degree -1..25, x-degree -1..25, zero/sparse/unequal coefficient degrees, common leading terms so that degrees drop) over every kind of modulus; arithmetic histories with aliased outputs against a coefficient-array model; Kronecker maps in both directions; resultants against Euclid's resultant of the specialisations at random points and a degree bound; block-projection resultants compared up to a constant; non-trivial: at least one operand has x-degree and y-degree at least 1";
std::vector<std::string> ASSUMPTIONS={"Kronecker: entry degrees at most the step; resultants: non-zero inputs of y-degree at least 1, prime modulus of at least 40 bits (random evaluation points); block-projection resultants: dense random inputs of x-degree at least 1 whose resultant does not vanish at x=0 (the underlying power series solver needs it)"};
std::vector<Known> KNOWN={};
typedef std::vector<Poly> B;
static void norm(B&a){ while(!a.empty()&&ref::deg(a.back())<0) a.pop_back(); for(auto&p:a) ref::norm(p); }
static B get(const zz_pXY&a){ B r=::get(a.rep); CHECK(r.empty()||ref::deg(r.back())>=0,"bivariate polynomial not normalized (zero leading coefficient)"); return r; }
static zz_pXY put(const B&a){ return zz_pXY(putpv(a)); }
static long dX(const B&a){ long d=-1; for(auto&p:a) d=std::max(d,ref::deg(p)); return d; }
static Poly co(const B&a,long i){ return i>=0&&i<(long)a.size()?a[i]:Poly(); }
static void ck(const zz_pXY&got,B want,const char*w){ norm(want); B h=get(got); CHECK(h.size()==want.size(),std::string(w)+": wrong y-degree"); for(size_t i=0;i<h.size();i++) CHECK(ref::peq(h[i],want[i]),std::string(w)+": wrong coefficient of y^"+std::to_string(i)); }
static B gen_b(Gen&g,long dx,long dy){ ref::PMat M=gen_pmat(g,dy,1,dx); B a=M.a; norm(a); return a; }
static B bmul(const B&a,const B&b){ if(a.empty()||b.empty()) return B(); B c(a.size()+b.size()-1); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) c[i+j]=ref::padd(c[i+j],ref::pmul(a[i],b[j])); norm(c); return c; }
static void t_arith(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long mx=g.coin(1,4)?25:5; std::vector<B> m(3); std::vector<zz_pXY> v(3); for(int i=0;i<3;i++){ m[i]=gen_b(g,g.size(0,mx),g.size(0,mx)); if(i==1&&g.coin(1,4)&&!m[0].empty()){ m[1]=m[0]; if(g.coin(1,2)) m[1][0]=gen_poly(g,4); norm(m[1]);} v[i]=put(m[i]); ck(v[i],m[i],"construction"); NONTRIVIAL(c,dX(m[i])>=1&&m[i].size()>=2); }
  long k=1+(long)g.draw(6); for(long it=0;it<k;it++){ int z=(int)g.draw(3),x=(int)g.draw(3),y=(int)g.draw(3); if(dX(m[x])>80||m[x].size()>80||dX(m[y])>80||m[y].size()>80) break; u64 o=g.draw(14); static const char*nm[]={"add","sub","mulc","naive","kron","mul","shx","shy","trx","try","set","eval","kro","eq"}; c.note("op",nm[o]); std::ostringstream q; q<<z<<x<<y; c.note("r",q.str());
    B A=m[x],Bb=m[y],C; long n=std::max(A.size(),Bb.size());
    switch(o){
     case 0: for(long i=0;i<n;i++) C.push_back(ref::padd(co(A,i),co(Bb,i))); if(g.coin(1,3)) v[z]=v[x]+v[y]; else add(v[z],v[x],v[y]); break;
     case 1: for(long i=0;i<n;i++) C.push_back(ref::psub(co(A,i),co(Bb,i))); if(g.coin(1,3)) v[z]=v[x]-v[y]; else sub(v[z],v[x],v[y]); break;
     case 2: { u64 s=gen_elem(g); C=A; for(auto&p:C) p=ref::pscale(p,s); u64 h=g.draw(4); if(h==0) v[z]=mul(v[x],Z(s)); else if(h==1) v[z]=v[x]*Z(s); else mul(v[z],v[x],Z(s)); break; }
     case 3: C=bmul(A,Bb); if(g.coin(1,3)) v[z]=mul_naive(v[x],v[y]); else mul_naive(v[z],v[x],v[y]); break;
     case 4: C=bmul(A,Bb); if(g.coin(1,3)) v[z]=mul_kronecker(v[x],v[y]); else mul_kronecker(v[z],v[x],v[y]); break;
     case 5: C=bmul(A,Bb); { u64 h=g.draw(3); if(h==0) v[z]=v[x]*v[y]; else if(h==1) v[z]=mul(v[x],v[y]); else mul(v[z],v[x],v[y]); } break;
     case 6: { long s=g.range(-(dX(A)+3),6); c.note("s",s); C=A; for(auto&p:C) p=ref::pshl(p,s); if(g.coin(1,3)) v[z]=shift_x(v[x],s); else shift_x(v[z],v[x],s); break; }
     case 7: { long s=g.range(-((long)A.size()+2),6); c.note("s",s); for(long i=0;i<(long)A.size()+s;i++) C.push_back(co(A,i-s)); if(g.coin(1,3)) v[z]=shift_y(v[x],s); else shift_y(v[z],v[x],s); break; }
     case 8: { long s=g.range(0,dX(A)+3); C=A; for(auto&p:C) p=ref::ptrunc(p,s); if(g.coin(1,3)) v[z]=trunc_x(v[x],s); else trunc_x(v[z],v[x],s); break; }
     case 9: { long s=g.range(0,A.size()+2); for(long i=0;i<std::min<long>(s,A.size());i++) C.push_back(A[i]); if(g.coin(1,3)) v[z]=trunc_y(v[x],s); else trunc_y(v[z],v[x],s); break; }
     case 10: { long i=g.range(0,A.size()+2); Poly p=gen_poly(g,(long)g.draw(5)); c.note("i",i); if(g.coin(1,4)){ if(g.coin(1,2)){ v[z]=zz_pXY(::put(p)); C.push_back(p); } else v[z].zero(); break; } C=A; if((long)C.size()<=i) C.resize(i+1); C[i]=p; z=x; SetCoeff(v[x],i,::put(p)); break; }
     case 11: { u64 a=gen_elem(g); Poly p; for(auto&q:A) p.push_back(ref::peval(q,a)); ref::norm(p); zz_pX r=::put(gen_poly(g,3)); evaluate(r,v[x],Z(a)); CHECK(ref::peq(::get(r),p),"evaluation in x wrong"); CHECK(evaluate(v[x],Z(a))==r,"evaluation in x (returned) wrong"); CHECK(v[x].degX()==dX(A)&&v[x].degY()==(long)A.size()-1,"degree in x or y wrong"); long t=-1; for(size_t i=0;i<A.size();i++) if(ref::deg(A[i])>=0) t=std::max<long>(t,ref::deg(A[i])+(long)i); CHECK(v[x].tdeg()==t,"total degree wrong"); CHECK((v[x].is_zero()!=0)==A.empty(),"is_zero wrong"); z=x; C=A; break; }
     case 12: { long st=std::max(0L,dX(A))+(long)g.draw(3); Poly p((st+1)*A.size(),0); for(size_t i=0;i<A.size();i++) for(size_t j=0;j<A[i].size();j++) p[i*(st+1)+j]=A[i][j]; ref::norm(p); zz_pX r=::put(gen_poly(g,30)); to_kronecker(r,v[x],st); CHECK(ref::peq(::get(r),p),"to_kronecker wrong"); C=A; from_kronecker(v[z],r,st); if(g.coin(1,3)){ Vec<zz_pX> w; to_kronecker(r,v[z].rep,st); CHECK(ref::peq(::get(r),p),"to_kronecker(vector) wrong"); from_kronecker(w,r,st); CHECK(w==v[z].rep,"from_kronecker(vector) wrong"); } break; }
     default: { bool eq=A.size()==Bb.size(); for(size_t i=0;eq&&i<A.size();i++) if(!ref::peq(A[i],Bb[i])) eq=false; CHECK((v[x]==v[y])==eq&&(v[x]!=v[y])==!eq,"equality test wrong"); z=x; C=A; if(g.coin(1,3)){ long dx=(long)g.draw(4),dy=(long)g.draw(4); zz_pXY r; random_zz_pXY(r,dx,dy); B h=get(r); CHECK((long)h.size()<=dy&&dX(h)<std::max(dx,1L),"random_zz_pXY: degrees out of bounds"); } } }
    norm(C); ck(v[z],C,nm[o]); m[z]=C; for(int i=0;i<3;i++) ck(v[i],m[i],"operand after operation"); } }
// classical Euclid resultant of f,g (both of degree>=0): lc(f)^deg g * prod g(alpha)
static u64 res1(Poly f,Poly g_){ ref::norm(f); ref::norm(g_); u64 r=1%ref::P; while(true){ long n=ref::deg(f),m=ref::deg(g_); if(m<0||n<0) return 0; if(m==0) return ref::mul(r,ref::pw(g_[0],n)); if(n==0) return ref::mul(r,ref::pw(f[0],m)); Poly h=ref::prem(f,g_); long k=ref::deg(h); if(k<0) return 0; r=ref::mul(r,ref::pw(g_[m],n-k)); if((n&1)&&(m&1)) r=ref::neg(r); f=g_; g_=h; } }
static Poly spec(const B&a,u64 x){ Poly p; for(auto&q:a) p.push_back(ref::peval(q,x)); ref::norm(p); return p; }
static Poly rdense(Rng&q,long n){ Poly p(n); for(auto&x:p) x=q()%ref::P; ref::norm(p); return p; }
static B full(Rng&q,long dx,long dy){ B a; for(long i=0;i<=dy;i++) a.push_back(rdense(q,dx+1)); if(ref::deg(a.back())<0) a.back()=Poly{1}; return a; }
static void t_res(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<40); note_field(c,f); long mx=g.coin(1,4)?16:5; B F,G; bool gen=g.coin(1,2); long a=g.size(1,mx),b=g.size(1,mx),dx=g.size(0,mx); Rng rs(g.seed32()); if(gen){ F=full(rs,dx,a); G=full(rs,g.size(0,mx),b); } else { F=gen_b(g,dx+1,a+1); G=gen_b(g,g.size(0,mx)+1,b+1); if(g.coin(1,4)&&!F.empty()&&!G.empty()){ B h=full(rs,1,1); F=bmul(F,h); G=bmul(G,h); } }
  if(F.size()<2||G.size()<2) throw Discard(); c.note("dyf",F.size()-1); c.note("dyg",G.size()-1); c.note("dxf",dX(F)); c.note("dxg",dX(G)); NONTRIVIAL(c,dX(F)>=1||dX(G)>=1); SetSeed(ZZ((long)g.seed32()));
  zz_pX r; if(g.coin(1,2)) r=::put(gen_poly(g,5)); long ok=resultant(r,put(F),put(G)); if(!ok){ c.tag("declined"); if(gen) FAIL("resultant reported failure on generic input"); throw Discard(); }
  Poly R=::get(r); long bd=((long)F.size()-1)*std::max(0L,dX(G))+((long)G.size()-1)*std::max(0L,dX(F)); CHECK(ref::deg(R)<=bd,"resultant has too large a degree");
  Rng q(g.seed32()); for(int t=0;t<6;t++){ u64 x=q()%ref::P; Poly s1=spec(F,x),s2=spec(G,x); if(s1.size()!=F.size()||s2.size()!=G.size()) continue; CHECK(ref::peval(R,x)==res1(s1,s2),"resultant wrong at a random point"); } }
static void t_vil(Gen&g,Case&c){ Field f=gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<50); note_field(c,f); long mx=g.coin(1,4)?30:9; bool td=g.coin(1,2); B F,G; Rng rs(g.seed32()); if(td){ long n=g.size(2,mx),m=g.coin(1,2)?n:g.size(2,mx); for(int k=0;k<2;k++){ B&a=k?G:F; long e=k?m:n; for(long i=0;i<e;i++) a.push_back(rdense(rs,e-i)); if(ref::deg(a.back())<0) a.back()=Poly{1}; } } else { long d=g.size(1,mx>10?8:5); F=full(rs,d,g.size(1,mx)); G=full(rs,g.coin(1,2)?d:g.size(1,d),g.coin(1,2)?F.size()-1:g.size(1,mx)); }
  if(F.size()<2||G.size()<2) throw Discard(); c.note("tdeg",td); c.note("dyf",F.size()-1); c.note("dyg",G.size()-1); c.note("dxf",dX(F)); c.note("dxg",dX(G)); { Poly s1=spec(F,0),s2=spec(G,0); if(s1.size()!=F.size()||s2.size()!=G.size()||res1(s1,s2)==0) throw Discard(); } NONTRIVIAL(c,true); SetSeed(ZZ((long)g.seed32()));
  zz_pX r; long ok=td?resultant_villard_tdeg(r,put(F),put(G)):resultant_villard(r,put(F),put(G)); if(!ok){ c.tag("declined"); long nf=F.size()-1,ng=G.size()-1; if(!td||(long)cbrt((nf+ng)/2)<=std::min(nf,ng)) FAIL("block-projection resultant reported failure on generic input"); throw Discard(); } Poly R=::get(r); CHECK(!R.empty(),"block-projection resultant is zero on generic input");
  // degree by interpolation of the exact resultant at few points is too expensive for large inputs: compare projectively at random points, plus degree bound
  long bd=((long)F.size()-1)*dX(G)+((long)G.size()-1)*dX(F); CHECK(ref::deg(R)<=bd,"degree too large"); Rng q(g.seed32()); u64 a0=0,b0=0; for(int t=0;t<6;t++){ u64 x=q()%ref::P; Poly s1=spec(F,x),s2=spec(G,x); if(s1.size()!=F.size()||s2.size()!=G.size()) continue; u64 e=res1(s1,s2),h=ref::peval(R,x); if(!a0&&e){ a0=e; b0=h; CHECK(h,"vanishes where the resultant does not"); continue; } CHECK(ref::mul(e,b0)==ref::mul(h,a0),"not a constant multiple of the resultant"); } }
std::vector<Sub> SUBS={{"arithmetic",t_arith,60000,1500000,200},{"resultant",t_res,8000,120000,50},{"resultant-blocks",t_vil,2500,50000,20}};
