// C15: shifted degrees, pivots, leading matrices, forms
#include "forms.h"
const char* PROP_RULE="random matrices (1..8 rows/columns, sometimes up to 30; degree up to 12), matrices constructed in a given form and then slightly perturbed (one coefficient, swapped rows, scaled row, row combination), zero rows/columns, with and without shifts (zero, small, huge amplitude, negative); every degree/pivot/leading-matrix/predicate function, row- and column-wise, compared with a direct evaluation of the definition; non-trivial: at least 2 rows, 2 columns and degree at least 1";
std::vector<std::string> ASSUMPTIONS={"shifted functions are called on matrices with at least one row and one column (the minimum of an empty shift is not defined)"};
std::vector<Known> KNOWN={};
static bool ml(const Mat<long>&a,long r,long c,const std::function<long(long,long)>&f){ if(a.NumRows()!=r||a.NumCols()!=c) return false; for(long i=0;i<r;i++) for(long j=0;j<c;j++) if(a[i][j]!=f(i,j)) return false; return true; }
static void t_forms(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool big=g.coin(1,12); long r=1+g.size(0,big?29:6),k=g.coin(1,2)?r:1+g.size(0,big?29:6); long d=g.size(0,big?3:12); bool col=g.coin(1,2); c.note("r",r); c.note("c",k); c.note("col",col);
  // build row-wise in A (rows r, cols k); for the column-wise functions use the transpose
  VL s=gen_shift(g,k,g.coin(1,4)?40:4); PMat A; u64 kind=g.draw(6); c.note("kind",kind); if(kind<4&&r<=k){ A=gen_popov(g,r,k,s,d,kind%2==0); u64 pert=g.draw(8); c.note("pert",pert); Rng q(g.seed32()); long i=q.below(r),j=q.below(k),l=q.below(r);
      switch(pert){ case 0: case 1: case 2: break; case 3: A.at(i,j)=ref::padd(A.at(i,j),ref::pshl(Poly{1+q()%(ref::P-1)},q.below(d+2))); break; case 4: for(long t=0;t<k;t++) std::swap(A.at(i,t),A.at(l,t)); break; case 5: { u64 e=1+q()%(ref::P-1); for(long t=0;t<k;t++) A.at(i,t)=ref::pscale(A.at(i,t),e); break; } case 6: if(i!=l){ u64 e=q()%ref::P; long h=q.below(3); for(long t=0;t<k;t++) A.at(i,t)=ref::padd(A.at(i,t),ref::pshl(ref::pscale(A.at(l,t),e),h)); } break; default: { VL h=gen_shift(g,k,4); s=h; } } }
  else A=gen_pmat(g,r,k,d+1);
  NONTRIVIAL(c,r>=2&&k>=2&&ref::mdeg(A)>=1); bool sh=g.coin(2,3); VL z(k,0); const VL&S=sh?s:z; c.note("shift",sh?vstr(s):"none"); Mat<zz_pX> a=put(col?ref::mtr(A):A); Mat<zz_pX> a0=a; VecLong ss(s.begin(),s.end());
  VL wd=rrdeg(A,S); VecLong gd{7,7,7}; if(col){ if(sh) col_degree(gd,a,ss); else col_degree(gd,a); } else { if(sh) row_degree(gd,a,ss); else row_degree(gd,a); } CHECK(VL(gd.begin(),gd.end())==wd,"degrees "+vstr(VL(gd.begin(),gd.end()))+" instead of "+vstr(wd));
  VL wi,wp; rpiv(A,S,wi,wp); VecLong gi{3},gp{1,2,3,4}; if(col){ if(sh) col_pivots(gi,gp,a,ss); else col_pivots(gi,gp,a); } else { if(sh) row_pivots(gi,gp,a,ss); else row_pivots(gi,gp,a); } CHECK(VL(gi.begin(),gi.end())==wi,"pivot indices "+vstr(VL(gi.begin(),gi.end()))+" instead of "+vstr(wi)); CHECK(VL(gp.begin(),gp.end())==wp,"pivot degrees "+vstr(VL(gp.begin(),gp.end()))+" instead of "+vstr(wp));
  { Mat<long> dm; if(g.coin(1,2)) dm.SetDims(2,3); long R=a.NumRows(),C=a.NumCols(); degree_matrix(dm,a); CHECK(ml(dm,R,C,[&](long i,long j){ return ref::deg(col?A.at(j,i):A.at(i,j)); }),"degree_matrix wrong"); long ms=*std::min_element(s.begin(),s.end()); if(col) degree_matrix_colshifted(dm,a,ss); else degree_matrix_rowshifted(dm,a,ss); CHECK(ml(dm,R,C,[&](long i,long j){ long x=col?j:i,y=col?i:j; long e=ref::deg(A.at(x,y)); return e<0?ms-1:e+s[y]; }),"shifted degree matrix wrong"); }
  { CMat L=rlmat(A,S); if(col) L=ref::ctr(L); Mat<zz_p> l=outc(g,g.draw(4),g.draw(4)); if(col){ if(sh) col_leading_matrix(l,a,ss); else col_leading_matrix(l,a); } else { if(sh) row_leading_matrix(l,a,ss); else row_leading_matrix(l,a); } ckc(get(l),L,"leading matrix"); }
  bool w[5],got[5],pf[5]; for(int i=0;i<5;i++) w[i]=f_form(i,A,S); got[0]=true;
  if(col){ if(sh){ got[1]=is_col_reduced(a,ss); got[2]=is_col_weak_popov(a,ss); got[3]=is_col_ordered_weak_popov(a,ss); got[4]=is_col_popov(a,ss);} else { got[1]=is_col_reduced(a); got[2]=is_col_weak_popov(a); got[3]=is_col_ordered_weak_popov(a); got[4]=is_col_popov(a);} }
  else { if(sh){ got[1]=is_row_reduced(a,ss); got[2]=is_row_weak_popov(a,ss); got[3]=is_row_ordered_weak_popov(a,ss); got[4]=is_row_popov(a,ss);} else { got[1]=is_row_reduced(a); got[2]=is_row_weak_popov(a); got[3]=is_row_ordered_weak_popov(a); got[4]=is_row_popov(a);} }
  int best=f_best(A,S); c.tag(std::string("form:")+std::to_string(best));
  for(int i=0;i<5;i++){ PolMatForm pm=(PolMatForm)i; pf[i]=col?(sh?is_col_polmatform(pm,a,ss):is_col_polmatform(pm,a)):(sh?is_row_polmatform(pm,a,ss):is_row_polmatform(pm,a)); CHECK(got[i]==w[i],std::string("predicate for ")+fname(i)+(got[i]?" accepts a matrix that is not":" rejects a matrix that is")); CHECK(pf[i]==w[i],std::string("is_polmatform for ")+fname(i)+" wrong"); }
  PolMatForm b=col?(sh?get_col_polmatform(a,ss):get_col_polmatform(a)):(sh?get_row_polmatform(a,ss):get_row_polmatform(a)); CHECK((int)b==best,"strongest form reported "+std::to_string((int)b)+" instead of "+std::to_string(best));
  CHECK(amplitude(ss)==*std::max_element(s.begin(),s.end())-*std::min_element(s.begin(),s.end()),"amplitude"); CHECK(a==a0,"input changed");
  if(g.coin(1,10)){ VecLong bad(ss); if(g.coin(1,2)) bad.push_back(0); else bad.pop_back(); int n=0; auto thr=[&](std::function<void()> fn){ n++; try{ fn(); } catch(const std::invalid_argument&){ return; } FAIL("shift of the wrong length accepted by function "+std::to_string(n)); }; VecLong o1,o2; Mat<long> m; Mat<zz_p> l; if(col){ thr([&]{ col_degree(o1,a,bad);}); thr([&]{ col_pivots(o1,o2,a,bad);}); thr([&]{ degree_matrix_colshifted(m,a,bad);}); thr([&]{ col_leading_matrix(l,a,bad);}); } else { thr([&]{ row_degree(o1,a,bad);}); thr([&]{ row_pivots(o1,o2,a,bad);}); thr([&]{ degree_matrix_rowshifted(m,a,bad);}); thr([&]{ row_leading_matrix(l,a,bad);}); } } }
// the overloads returning their result
static void t_ret(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+g.size(0,6),k=g.coin(1,3)?r:1+g.size(0,6),d=g.size(0,8); c.note("r",r); c.note("c",k); PMat A=gen_pmat(g,r,k,d+1); NONTRIVIAL(c,r>=2&&k>=2&&ref::mdeg(A)>=1); bool col=g.coin(1,2),sh=g.coin(1,2); c.note("col",col); VL s=gen_shift(g,k,6); c.note("shift",sh?vstr(s):"none"); VL z(k,0); const VL&S=sh?s:z; VecLong ss(s.begin(),s.end()); Mat<zz_pX> a=put(col?ref::mtr(A):A); long R=a.NumRows(),C=a.NumCols();
  VecLong gd=col?(sh?col_degree(a,ss):col_degree(a)):(sh?row_degree(a,ss):row_degree(a)); CHECK(VL(gd.begin(),gd.end())==rrdeg(A,S),"returned degrees wrong");
  VL wi,wp; rpiv(A,S,wi,wp); std::pair<VecLong,VecLong> pv=col?(sh?col_pivots(a,ss):col_pivots(a)):(sh?row_pivots(a,ss):row_pivots(a)); CHECK(VL(pv.first.begin(),pv.first.end())==wi,"returned pivot indices wrong"); CHECK(VL(pv.second.begin(),pv.second.end())==wp,"returned pivot degrees wrong");
  CMat L=rlmat(A,S); if(col) L=ref::ctr(L); ckc(get(col?(sh?col_leading_matrix(a,ss):col_leading_matrix(a)):(sh?row_leading_matrix(a,ss):row_leading_matrix(a))),L,"returned leading matrix");
  CHECK(ml(degree_matrix(a),R,C,[&](long i,long j){ return ref::deg(col?A.at(j,i):A.at(i,j)); }),"returned degree matrix wrong"); long ms=*std::min_element(s.begin(),s.end()); CHECK(ml(col?degree_matrix_colshifted(a,ss):degree_matrix_rowshifted(a,ss),R,C,[&](long i,long j){ long x=col?j:i,y=col?i:j; long e=ref::deg(A.at(x,y)); return e<0?ms-1:e+s[y]; }),"returned shifted degree matrix wrong");
  long am=-5; amplitude(am,ss); CHECK(am==*std::max_element(s.begin(),s.end())-ms,"amplitude"); ckm(a,col?ref::mtr(A):A,"input afterwards"); }
std::vector<Sub> SUBS={{"forms",t_forms,150000,3000000,500},{"returned-values",t_ret,30000,500000,400}};
