// C05: transposed evaluation / interpolation
#include "pts.h"
const char* PROP_RULE="random point family and history as for evaluation; transposed evaluation with random output size 0..n or default, transposed interpolation, vector/matrix versions, in-place vector forms; non-trivial: n >= 2 and a non-zero operand";
std::vector<std::string> ASSUMPTIONS={"output sizes between 0 and n; for the general-point family only the first output_size coefficients are compared (extra coefficients must still be the true ones)"};
std::vector<Known> KNOWN={};
static u64 tev(const MP&m,const ref::Vec&w,long k){ u64 s=0; for(long i=0;i<m.n;i++) s=ref::add(s,ref::mul(w[i],ref::pw(m.pts[i],k))); return s; }
static void check_t(const Poly&f,const MP&m,const ref::Vec&w,long os,const char*nm){ CHECK(ref::deg(f)<m.n,std::string(nm)+": output too long"); for(long k=0;k<m.n;k++){ if(k>=os&&ref::coef(f,k)==0) continue; CHECK(ref::coef(f,k)==tev(m,w,k),std::string(nm)+": coefficient "+std::to_string(k)+" wrong"); } }
static void op(Gen&g,Case&c,MP&m){ u64 k=g.draw(m.geo?9:7); long os=-1; if(g.coin(2,3)) os=(long)g.draw(m.n+1); long eos=os<0?m.n:os; switch(k){
  case 0: case 1: { ref::Vec w=gen_list(g,m.n); c.note("tev",os); NONTRIVIAL(c,m.n>=2&&*std::max_element(w.begin(),w.end())>0); Vec<zz_p> W=putv(w); zz_pX F=put(gen_dense(g,4)); if(os<0) m.o->t_evaluate(F,W); else m.o->t_evaluate(F,W,os); check_t(get(F),m,w,eos,"t_evaluate"); CHECK(get(W)==w,"t_evaluate changed its input"); break; }
  case 2: case 3: { Poly f=gen_poly(g,m.n); c.note("tin",ref::deg(f)); NONTRIVIAL(c,m.n>=2&&!f.empty()); zz_pX F=put(f); Vec<zz_p> v; m.o->t_interpolate(v,F); ref::Vec w=get(v); CHECK((long)w.size()==m.n,"t_interpolate: wrong length"); for(long k=0;k<m.n;k++) CHECK(tev(m,w,k)==ref::coef(f,k),"t_interpolate is not the inverse of t_evaluate"); CHECK(ref::peq(get(F),f),"t_interpolate changed its input"); break; }
  case 4: { long s=1+(long)g.draw(3); std::vector<ref::Vec> w; for(long i=0;i<s;i++) w.push_back(gen_list(g,m.n)); Vec<Vec<zz_p>> V; V.SetLength(m.n); for(long i=0;i<m.n;i++){ V[i].SetLength(s); for(long j=0;j<s;j++) V[i][j]=Z(w[j][i]); } c.note("tevvec",s); Vec<zz_pX> F; m.o->t_evaluate_vector(F,V,os); auto f=get(F); CHECK((long)f.size()==s,"t_evaluate_vector: wrong length"); for(long j=0;j<s;j++) check_t(f[j],m,w[j],eos,"t_evaluate_vector"); if(eos==m.n){ Vec<Vec<zz_p>> U; m.o->t_interpolate_vector(U,F); CHECK(U.length()==m.n,"t_interpolate_vector length"); for(long i=0;i<m.n;i++) for(long j=0;j<s;j++) CHECK(get(U[i][j])==w[j][i],"t_interpolate_vector does not invert"); } break; }
  case 5: { long r=1+(long)g.draw(2),s=1+(long)g.draw(2); std::vector<ref::Vec> w; for(long i=0;i<r*s;i++) w.push_back(gen_list(g,m.n)); Vec<Mat<zz_p>> V; V.SetLength(m.n); for(long i=0;i<m.n;i++){ V[i].SetDims(r,s); for(long j=0;j<r*s;j++) V[i][j/s][j%s]=Z(w[j][i]); } c.note("tevmat",r*10+s); Mat<zz_pX> F; m.o->t_evaluate_matrix(F,V,os); PMat f=get(F); CHECK(f.r==r&&f.c==s,"t_evaluate_matrix: wrong shape"); for(long j=0;j<r*s;j++) check_t(f.a[j],m,w[j],eos,"t_evaluate_matrix"); if(eos==m.n){ Vec<Mat<zz_p>> U; m.o->t_interpolate_matrix(U,F); CHECK(U.length()==m.n,"t_interpolate_matrix length"); for(long i=0;i<m.n;i++) for(long j=0;j<r*s;j++) CHECK(get(U[i][j/s][j%s])==w[j][i],"t_interpolate_matrix does not invert"); } break; }
  case 6: { Poly f=gen_poly(g,m.n); Vec<zz_p> v; m.o->evaluate(v,put(f)); ref::Vec w=get(v); for(long i=0;i<m.n;i++) CHECK(w[i]==ref::peval(f,m.pts[i]),"evaluate wrong"); break; }
  default: { ref::Vec w=gen_list(g,m.n); c.note("op","mulleft"); Vec<zz_p> W=putv(w),v; int al=(int)g.draw(2); if(al){ v=W; m.geo->mul_left(v,v);} else m.geo->mul_left(v,W); ref::Vec f=get(v); CHECK((long)f.size()==m.n,"mul_left length"); for(long k=0;k<m.n;k++) CHECK(f[k]==tev(m,w,k),"mul_left: coefficient "+std::to_string(k)+" wrong"); Vec<zz_p> b; if(al){ m.geo->inv_mul_left(v,v); b=v; } else m.geo->inv_mul_left(b,v); CHECK(get(b)==w,"inv_mul_left does not invert"); } } }
static void t_hist(Gen&g,Case&c){ MP m=gen_mp(g,c,g.coin(1,6)?300:40); long k=1+(long)g.draw(6); for(long i=0;i<k;i++){ tweak(g,c,m); op(g,c,m);} }
// many points: the transposition identity <t_evaluate(w),f> = <w,evaluate(f)> for random f, and t_interpolate as the inverse
#include <set>
static zz_pX lpoly(Gen&g,long n){ Rng q(g.seed32()); bool sat=g.coin(1,4); zz_pX f; f.rep.SetLength(n); for(long i=0;i<n;i++) f.rep[i]=Z(sat?ref::P-1-q.below(std::min<u64>(ref::P,2)):q()%ref::P); f.normalize(); return f; }
static long llen(Gen&g,long lo,long hi){ if(g.coin(1,2)){ long b=1; while(2*b<=lo) b*=2; std::vector<long> v; for(;b<=hi;b*=2) if(b>=lo) v.push_back(b); if(!v.empty()) return std::max(lo,std::min(hi,v[g.draw(v.size())]+g.range(-2,2))); } return g.range(lo,hi); }

static MP long_mp(Gen&g,Case&c){ MP m; m.kind=(int)g.draw(3); Field f=m.kind==2?gen_field(g,F_FFT|F_USERFFT,1ULL<<20):gen_field(g,F_BIG|F_FFT|F_USERFFT|F_MED,1ULL<<20); note_field(c,f); if(m.kind==2){ long k=8+(long)g.draw(4); while(k>zz_pInfo->MaxRoot) k--; m.o.reset(new PML::zz_pX_Multipoint_FFT(1L<<k)); } else { m.n=llen(g,250,m.kind==0?900:2600); if(m.kind==0){ Rng q(g.seed32()); std::set<u64> s; while((long)s.size()<m.n) s.insert(q()%ref::P); ref::Vec v(s.begin(),s.end()); for(long i=m.n-1;i>0;i--) std::swap(v[i],v[q.below(i+1)]); m.o.reset(new PML::zz_pX_Multipoint_General(putv(v))); m.pts=v; } else { zz_p r=PML::element_of_order(2*m.n); if(IsZero(r)) throw Discard(); u64 s=g.coin(1,2)?1:gen_nz(g); m.geo=new PML::zz_pX_Multipoint_Geometric(r,Z(s),m.n); m.o.reset(m.geo); u64 x=s; for(long i=0;i<m.n;i++){ m.pts.push_back(x); x=ref::mul(x,ref::mul(get(r),get(r))); } } }
  if(m.kind==2){ m.n=m.o->length(); Vec<zz_p> p; m.o->get_points(p); m.pts=get(p); } CHECK(m.o->length()==m.n,"length() wrong"); c.note("kind",mpname(m.kind)); c.note("n",m.n); c.tag(mpname(m.kind)); NONTRIVIAL(c,true); return m; }

static void t_long(Gen&g,Case&c){ MP m=long_mp(g,c); long k=1+(long)g.draw(2); for(long i=0;i<k;i++){ tweak(g,c,m); Rng q(g.seed32()); ref::Vec w(m.n); for(auto&x:w) x=q()%ref::P; long os=g.coin(1,3)?(long)g.draw(m.n+1):-1,e=os<0?m.n:os; c.note("os",os); Vec<zz_p> W=putv(w),U; zz_pX F; if(os<0) m.o->t_evaluate(F,W); else m.o->t_evaluate(F,W,os); CHECK(deg(F)<m.n,"t_evaluate: output too long");
   for(int t=0;t<2;t++){ zz_pX p=lpoly(g,e); zz_p l,r; for(long j=0;j<e;j++) l+=coeff(F,j)*coeff(p,j); for(long j=0;j<m.n;j++) r+=W[j]*eval(p,Z(m.pts[j])); CHECK(l==r,"t_evaluate is not the transpose of evaluation"); } if(os<0){ m.o->t_interpolate(U,F); CHECK(U==W,"t_interpolate is not the inverse of t_evaluate"); } } }
std::vector<Sub> SUBS={{"history",t_hist,60000,1500000,200},{"long",t_long,200,5000,20}};
