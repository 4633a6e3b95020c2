// C04: multipoint evaluation / interpolation
#include "pts.h"
const char* PROP_RULE="random point family (general / geometric / FFT) over random moduli including FFT primes of low 2-adicity, 1..~200 points, then a random history of evaluate / interpolate / vector and matrix versions / flag changes / prepared degrees / copies on the same object; non-trivial: at least 2 points and a non-constant operand in the history";
std::vector<std::string> ASSUMPTIONS={"geometric ratio of order at least 2n-1 and non-zero base, distinct points, degrees below n, as documented"};
std::vector<Known> KNOWN={};
static void check_vals(const ref::Vec&v,const MP&m,const Poly&f,const char*w){ CHECK((long)v.size()==m.n,std::string(w)+": wrong number of values"); for(long i=0;i<m.n;i++) CHECK(v[i]==ref::peval(f,m.pts[i]),std::string(w)+": wrong value at point "+std::to_string(i)); }
static void op(Gen&g,Case&c,MP&m){ u64 k=g.draw(m.geo?12:9); switch(k){
  case 0: case 1: { Poly f=gen_poly(g,(long)g.draw(m.n+1)); NONTRIVIAL(c,m.n>=2&&ref::deg(f)>=1); c.note("ev",ref::deg(f)); Vec<zz_p> v; if(g.coin(1,2)) v.SetLength((long)g.draw(2*m.n+1),Z(ref::P-1)); zz_pX F=put(f); m.o->evaluate(v,F); check_vals(get(v),m,f,"evaluate"); CHECK(ref::peq(get(F),f),"evaluate changed its input"); break; }
  case 2: case 3: { ref::Vec v=gen_list(g,m.n); c.note("in",m.n); NONTRIVIAL(c,m.n>=2); Vec<zz_p> V=putv(v); zz_pX F=put(gen_dense(g,3)); m.o->interpolate(F,V); Poly f=get(F); CHECK(ref::deg(f)<m.n,"interpolant degree too large"); check_vals(v,m,f,"interpolate"); CHECK(get(V)==v,"interpolate changed its input"); break; }
  case 4: { long s=(long)g.draw(4); std::vector<Poly> f; for(long i=0;i<s;i++) f.push_back(gen_poly(g,m.n)); c.note("evvec",s); Vec<Vec<zz_p>> v; m.o->evaluate_vector(v,putpv(f)); CHECK(v.length()==m.n,"evaluate_vector: wrong length"); for(long i=0;i<m.n;i++){ ref::Vec w=get(v[i]); CHECK((long)w.size()==s,"evaluate_vector: wrong inner length"); for(long j=0;j<s;j++) CHECK(w[j]==ref::peval(f[j],m.pts[i]),"evaluate_vector: wrong value"); } Vec<zz_pX> F; m.o->interpolate_vector(F,v); auto h=get(F); CHECK((long)h.size()==s,"interpolate_vector: wrong length"); for(long j=0;j<s;j++) CHECK(ref::peq(h[j],f[j]),"interpolate_vector: not the interpolant"); break; }
  case 5: { long r=1+(long)g.draw(3),s=1+(long)g.draw(3); PMat f=gen_pmat(g,r,s,m.n); if(ref::mdeg(f)>=m.n) f=ref::mtrunc(f,m.n); c.note("evmat",r*10+s); Vec<Mat<zz_p>> v; m.o->evaluate_matrix(v,put(f)); CHECK(v.length()==m.n,"evaluate_matrix: wrong length"); for(long i=0;i<m.n;i++) CHECK(get(v[i])==ref::meval(f,m.pts[i]),"evaluate_matrix: wrong value"); Mat<zz_pX> F; m.o->interpolate_matrix(F,v); CHECK(ref::meq(get(F),f),"interpolate_matrix: not the interpolant"); break; }
  case 6: { long i=(long)g.draw(m.n); zz_p p; m.o->get_point(p,i); CHECK(get(p)==m.pts[i],"get_point wrong"); Vec<zz_p> q; m.o->get_points(q); CHECK(get(q)==m.pts,"get_points wrong"); break; }
  case 7: { if(m.n>40) break; Mat<zz_p> M=m.o->to_dense(); CMat A=get(M); CHECK(A.r==m.n&&A.c==m.n,"to_dense shape"); for(long i=0;i<m.n;i++) for(long j=0;j<m.n;j++) CHECK(A.at(i,j)==ref::pw(m.pts[i],j),"to_dense entry wrong"); break; }
  case 8: { if(m.kind==0) m.o.reset(new PML::zz_pX_Multipoint_General(static_cast<PML::zz_pX_Multipoint_General&>(*m.o))); else if(m.kind==1){ auto*q=new PML::zz_pX_Multipoint_Geometric(*m.geo); m.o.reset(q); m.geo=q; } else m.o.reset(new PML::zz_pX_Multipoint_FFT(static_cast<PML::zz_pX_Multipoint_FFT&>(*m.o))); c.note("op","copy"); break; }
  case 9: { long nb=(long)g.draw(3*m.n+2); Poly f=gen_poly(g,m.n); c.note("evnb",nb); Vec<zz_p> v; m.geo->evaluate(v,put(f),nb); ref::Vec w=get(v); CHECK((long)w.size()==nb,"evaluate at nb points: wrong length"); u64 x=m.pts[0],q=m.n>1?ref::mul(m.pts[1],ref::inv(m.pts[0])):1; for(long i=0;i<nb;i++){ CHECK(w[i]==ref::peval(f,x),"evaluate at nb points: wrong value at "+std::to_string(i)); x=ref::mul(x,q); } break; }
  case 10: { ref::Vec f=gen_list(g,m.n); c.note("op","mulright"); Vec<zz_p> v,F=putv(f); int al=(int)g.draw(2); if(al){ v=F; m.geo->mul_right(v,v);} else m.geo->mul_right(v,F); Poly p=f; ref::norm(p); check_vals(get(v),m,p,"mul_right"); Vec<zz_p> b; if(al){ m.geo->inv_mul_right(v,v); b=v; } else m.geo->inv_mul_right(b,v); CHECK(get(b)==f,"inv_mul_right does not invert"); break; }
  default: { CHECK(get(m.geo->get_s())==m.pts[0],"get_s wrong"); if(m.n>=2) CHECK(ref::mul(get(m.geo->get_q()),m.pts[0])==m.pts[1],"get_q wrong"); m.geo->FFT_evaluate(); } } }
static void t_hist(Gen&g,Case&c){ MP m=gen_mp(g,c,g.coin(1,4)?300:48); long k=1+(long)g.draw(8); for(long i=0;i<k;i++){ tweak(g,c,m); op(g,c,m);} }
static void t_auto(Gen&g,Case&c){ Field f=gen_field(g,F_ALL,7); note_field(c,f); long n=1+g.size(0,std::min<long>(60,(ref::P-1)/2-1)); if((u64)2*n>ref::P-1) throw Discard(); c.note("n",n); PML::zz_pX_Multipoint_Geometric e=PML::get_geometric_points(n); CHECK(e.length()==n,"get_geometric_points: wrong number of points"); Vec<zz_p> q; e.get_points(q); ref::Vec p=get(q); CHECK((long)p.size()==n,"points"); auto t=p; std::sort(t.begin(),t.end()); for(long i=0;i+1<n;i++) CHECK(t[i]!=t[i+1],"get_geometric_points: repeated point"); Poly a=gen_poly(g,n); NONTRIVIAL(c,n>=2); Vec<zz_p> v; e.evaluate(v,put(a)); MP m; m.n=n; m.pts=p; check_vals(get(v),m,a,"evaluate"); zz_pX b; e.interpolate(b,v); CHECK(ref::peq(get(b),a),"interpolate(evaluate(f)) != f"); }
// many points: values by Horner at a sample of the points, interpolation as the inverse
#include <set>
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static MP long_mp(Gen&g,Case&c){ MP m; m.kind=(int)g.draw(3); Field f=m.kind==2?gen_field(g,F_FFT|F_USERFFT,1ULL<<20):gen_field(g,F_BIG|F_FFT|F_USERFFT|F_MED,1ULL<<20); note_field(c,f); if(m.kind==2){ long k=8+(long)g.draw(4); while(k>zz_pInfo->MaxRoot) k--; m.o.reset(new PML::zz_pX_Multipoint_FFT(1L<<k)); } else { m.n=llen(g,250,m.kind==0?900:2600); if(m.kind==0){ Rng q(g.seed32()); std::set<u64> s; while((long)s.size()<m.n) s.insert(q()%ref::P); ref::Vec v(s.begin(),s.end()); for(long i=m.n-1;i>0;i--) std::swap(v[i],v[q.below(i+1)]); m.o.reset(new PML::zz_pX_Multipoint_General(putv(v))); m.pts=v; } else { zz_p r=PML::element_of_order(2*m.n); if(IsZero(r)) throw Discard(); u64 s=g.coin(1,2)?1:gen_nz(g); m.geo=new PML::zz_pX_Multipoint_Geometric(r,Z(s),m.n); m.o.reset(m.geo); u64 x=s; for(long i=0;i<m.n;i++){ m.pts.push_back(x); x=ref::mul(x,ref::mul(get(r),get(r))); } } }
  if(m.kind==2){ m.n=m.o->length(); Vec<zz_p> p; m.o->get_points(p); m.pts=get(p); } CHECK(m.o->length()==m.n,"length() wrong"); c.note("kind",mpname(m.kind)); c.note("n",m.n); c.tag(mpname(m.kind)); NONTRIVIAL(c,true); return m; }

static void t_long(Gen&g,Case&c){ MP m=long_mp(g,c); long k=1+(long)g.draw(2); for(long i=0;i<k;i++){ tweak(g,c,m); zz_pX F=lpoly(g,g.coin(2,3)?m.n:(long)g.draw(m.n+1)),G; Vec<zz_p> v; m.o->evaluate(v,F); CHECK(v.length()==m.n,"evaluate: wrong length"); Rng q(g.seed32()); for(int t=0;t<24;t++){ long j=t==0?0:t==1?m.n-1:(long)q.below(m.n); CHECK(v[j]==eval(F,Z(m.pts[j])),"evaluate: value "+std::to_string(j)+" wrong"); } m.o->interpolate(G,v); CHECK(G==F,"interpolation of the values is not the polynomial"); } }
std::vector<Sub> SUBS={{"history",t_hist,60000,2000000,200},{"auto_geometric",t_auto,20000,600000,200},{"long",t_long,300,8000,20}};
