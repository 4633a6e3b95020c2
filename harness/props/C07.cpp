// C07: fixed small-length transforms
#include "h.h"
#include "lzz_pX_CRT.h"
using namespace NTL; using ref::Poly; using ref::PMat;
const char* PROP_RULE="random modulus, each transform (naive of length 1..9, Karatsuba 2, Montgomery 3, Karatsuba 4), random operand polynomials / vectors / matrices with short, zero and extreme coefficients, recycled output objects; non-trivial: both operands non-zero and length >= 2";
std::vector<std::string> ASSUMPTIONS={"operands have at most input_length() coefficients"};
std::vector<Known> KNOWN={};
static std::unique_ptr<PML::zz_pX_Transform> mk(Gen&g,Case&c,long&m){ std::unique_ptr<PML::zz_pX_Transform> t; switch(g.draw(5)){ case 0: t.reset(new PML::zz_pX_Transform_karatsuba()); m=2; c.tag("kar2"); break; case 1: t.reset(new PML::zz_pX_Transform_montgomery3()); m=3; c.tag("mont3"); break; case 2: t.reset(new PML::zz_pX_Transform_karatsuba4()); m=4; c.tag("kar4"); break; default: m=1+(long)g.draw(9); t.reset(new PML::zz_pX_Transform_naive(m)); c.tag("naive"); } CHECK(t->input_length()==m,"input_length"); c.note("m",m); return t; }
static void t_poly(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m; auto t=mk(g,c,m); long n=t->transform_length(); long rounds=1+(long)g.draw(3); for(long k=0;k<rounds;k++){ Poly a=gen_poly(g,(long)g.draw(m+1)+((g.draw(2))?0:0)),b=gen_poly(g,m); if(g.coin(1,2)) a=gen_poly(g,m); NONTRIVIAL(c,m>=2&&!a.empty()&&!b.empty()); c.note("da",ref::deg(a)); c.note("db",ref::deg(b)); Vec<zz_p> u,v,w; if(g.coin(1,2)) u.SetLength(20,Z(ref::P-1)); zz_pX A=put(a),B=put(b); t->forward_left(u,A); t->forward_right(v,B); CHECK(u.length()==n&&v.length()==n,"transform length"); ref::Vec x=get(u),y=get(v); w.SetLength(n); for(long i=0;i<n;i++) w[i]=Z(ref::mul(x[i],y[i])); zz_pX C=put(gen_dense(g,12)); t->backward(C,w); CHECK(ref::peq(get(C),ref::pmul(a,b)),"backward(forward(a)*forward(b)) != a*b"); CHECK(ref::peq(get(A),a)&&ref::peq(get(B),b),"input modified"); } }
static void t_mat(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m; auto t=mk(g,c,m); long n=t->transform_length(); long r=1+(long)g.draw(4),s=1+(long)g.draw(4),q=1+(long)g.draw(4); c.note("r",r); c.note("s",s); c.note("q",q); PMat a=ref::mtrunc(gen_pmat(g,r,s,m),m),b=ref::mtrunc(gen_pmat(g,s,q,m),m); NONTRIVIAL(c,m>=2&&ref::mdeg(a)>=0&&ref::mdeg(b)>=0);
  Vec<Mat<zz_p>> u,v,w; t->forward_left_matrix(u,put(a)); t->forward_right_matrix(v,put(b)); CHECK(u.length()==n&&v.length()==n,"transform length"); w.SetLength(n); for(long i=0;i<n;i++) w[i]=put(ref::cmul(get(u[i]),get(v[i]))); Mat<zz_pX> C; t->backward_matrix(C,w); CHECK(ref::meq(get(C),ref::mmul(a,b)),"matrix product through the transform is wrong");
  std::vector<Poly> va,vb; for(long j=0;j<s;j++){ va.push_back(a.at(0,j)); vb.push_back(b.at(j,0)); } Vec<Vec<zz_p>> x,y,z; t->forward_left_vector(x,putpv(va)); t->forward_right_vector(y,putpv(vb)); CHECK(x.length()==n&&y.length()==n,"vector transform length"); z.SetLength(n); for(long i=0;i<n;i++){ ref::Vec p=get(x[i]),q2=get(y[i]); CHECK((long)p.size()==s&&(long)q2.size()==s,"vector transform inner length"); z[i].SetLength(s); for(long j=0;j<s;j++) z[i][j]=Z(ref::mul(p[j],q2[j])); } Vec<zz_pX> h; t->backward_vector(h,z); auto H=get(h); CHECK((long)H.size()==s,"backward_vector length"); for(long j=0;j<s;j++) CHECK(ref::peq(H[j],ref::pmul(va[j],vb[j])),"vector product through the transform is wrong"); }
std::vector<Sub> SUBS={{"poly",t_poly,150000,3000000,500},{"matrix_vector",t_mat,60000,1200000,300}};
