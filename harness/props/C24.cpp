// C24: interpolant bases
#include "bases.h"
const char* PROP_RULE="every interpolant-basis routine (mbasis rescomp/resupdate/automatic with offset and length windows, Popov mbasis, pmbasis from a matrix or from evaluations, Popov pmbasis, the two geometric ones) with 1..8 rows, 1..8 columns (a share with 9..20 rows and columns), 1..150 distinct points (all of a small field, consecutive, random, containing 0, geometric progressions with a ratio of sufficient order), evaluations dense/low-rank/zero/unrelated to each other or from a polynomial matrix of degree below or above the number of points, shifts of any sign and amplitude: the rows vanish at every point (direct evaluation), shifted form by independent definition, degree of the determinant equal to the sum of the ranks of the evaluations, returned degrees equal to the shifted row degrees, points returned equal to the progression; non-trivial: at least 2 rows, 2 points, some non-zero evaluation";
std::vector<std::string> ASSUMPTIONS={"points are distinct, and the field has at least as many elements as points (documented)","geometric variants: ratio of multiplicative order at least twice the number of points; degree of the matrix below the number of points (documented)","evaluations passed by non-const reference may be modified"};
std::vector<Known> KNOWN={};
static void t_int(Gen&g,Case&c){ static const char*nm[]={"rescomp","resupdate","mbasis","mbasis-window","mbasis-popov","pmbasis-evals","pmbasis","pmbasis-popov","geometric-evals","geometric"}; u64 a=g.draw(10); u64 z=g.draw(10); long m,n,D; if(z<7){ m=1+g.size(0,5); n=1+g.size(0,4); D=1+g.size(0,12); } else if(z<9||a<5){ m=1+(long)g.draw(8); n=1+(long)g.draw(8); D=1+(long)g.draw(20); } else { m=1+(long)g.draw(4); n=1+(long)g.draw(m+1); D=30+(long)g.draw(g.coin(1,3)?120:40); } if(!g.coin(199,200)){ m=9+(long)g.draw(12); n=1+(long)g.draw(m); D=1+(long)g.draw(std::max(2L,std::min(70L,160/n))); } if(a==2&&g.coin(1,12)){ m=20+(long)g.draw(4); n=m-1; D=1+(long)g.draw(8); }
  bool geo=a>=8,win=a==0||a==1||a==3||a==5||a==8,poly=a==6||a==7||a==9; long off=0,tail=0; if(win&&g.coin(1,2)){ off=(long)g.draw(4); tail=(long)g.draw(3); } long N=off+D+tail; u64 minp=geo?8*N+20:N; Field f=g.coin(1,3)&&!geo?gen_field(g,F_TINY|F_SMALL,minp):gen_field(g,F_ALL,minp); note_field(c,f); c.note("alg",nm[a]); c.tag(std::string("alg:")+nm[a]);
  ref::Vec pts; u64 r=0; if(geo){ r=gen_ratio(g,2*N+2); if(!r) throw Discard(); u64 x=1,r2=ref::mul(r,r); for(long i=0;i<N;i++){ pts.push_back(x); x=ref::mul(x,r2); } } else pts=gen_pts(g,N);
  std::vector<CMat> E; PMat F; if(poly||g.coin(1,2)){ long d=1+g.size(0,D-1); if(a!=9&&g.coin(1,4)) d=D+(long)g.draw(8); F=gen_series(g,m,n,d); for(auto&p:F.a) if(a==9) p=ref::ptrunc(p,D); for(u64 x:pts) E.push_back(ref::meval(F,x)); } else { long ms=g.coin(1,2); CMat first=gen_cmat(g,m,n); for(long i=0;i<N;i++) E.push_back(ms?gen_cmat(g,m,n):first); c.tag("free-evaluations"); }
  VL s=gen_shift(g,m,g.coin(1,3)?3*D:4); c.note("m",m); c.note("n",n); c.note("points",D); c.note("offset",off); c.note("shift",vstr(s)); bool nz=false; for(long i=off;i<off+D;i++) for(u64 x:E[i].a) nz|=x!=0; NONTRIVIAL(c,m>=2&&D>=2&&nz);
  Mat<zz_pX> P=outm(g,m,m),fm=put(F); Vec<Mat<zz_p>> ev; ev.SetLength(N); for(long i=0;i<N;i++) ev[i]=put(E[i]); Vec<zz_p> pv=putv(pts); VecLong sh(s.begin(),s.end()); int form=3;
  switch(a){ case 0: mbasis_rescomp(P,ev,pv,sh,off,D); for(long i=0;i<N;i++) ckc(get(ev[i]),E[i],"const evaluations afterwards"); break; case 1: mbasis_resupdate(P,ev,pv,sh,off,D); break; case 2: mbasis(P,ev,pv,sh); break; case 3: mbasis(P,ev,pv,sh,off,D); break; case 4: popov_mbasis(P,ev,pv,sh); form=4; break; case 5: pmbasis(P,ev,pv,sh,off,D); break; case 6: pmbasis(P,fm,pv,sh); break; case 7: popov_pmbasis(P,fm,pv,sh); form=4; break; case 8: pmbasis_geometric(P,ev,pv,Z(r),sh,off,D); break; default: { Vec<zz_p> out; if(g.coin(1,3)) out.SetLength(3); pmbasis_geometric(P,fm,Z(r),D,sh,out); CHECK(get(out)==pts,"points returned are not the geometric progression"); } }
  if(a!=9) CHECK(get(pv)==pts,"points changed"); if(poly) ckm(fm,F,"input afterwards"); std::vector<CMat> Ew(E.begin()+off,E.begin()+off+D); ref::Vec pw(pts.begin()+off,pts.begin()+off+D); ck_int(get(P),Ew,pw,s,form,VL(sh.begin(),sh.end()),nm[a]); }
std::vector<Sub> SUBS={{"bases",t_int,80000,1500000,20}};
