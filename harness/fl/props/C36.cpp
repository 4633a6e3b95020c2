#include "../orient.h"
const char*PROP_RULE="a case is non-trivial when the matrix has at least two rows or two columns and at least two nonzero entries";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which passes all of flint-extras' own tests","definitions (degrees, pivots, forms) are re-implemented row-wise lower and carried to the three other orientations by transposition and reversal, as nmod_poly_mat_forms.h defines them"};
std::vector<Known> KNOWN={};
static long nnzr(const PMat&A){ long n=0; for(long i=0;i<A.r;i++){ bool z=true; for(long j=0;j<A.c;j++) if(ref::deg(A.at(i,j))>=0) z=false; n+=!z; } return n; }
struct In { PMat A,L; VL s,sl; orientation_t o; bool noshift; const slong*sp()const{ return noshift?nullptr:s.data(); } };
static In gen_in(Gen&g,Case&c,bool structured){ Field f=gen_field(g); note_field(c,f); In x; x.o=ORS[g.draw(4)]; long r=g.size(0,6),cc=g.size(0,6); if(structured){ r=1+g.draw(5); cc=r+g.draw(3); } c.note("orient",oname(x.o)); c.tag(oname(x.o)); c.note("low",std::to_string(r)+"x"+std::to_string(cc));
  VL s0=gen_shift(g,cc,4); x.noshift=g.coin(1,4); if(x.noshift) s0.assign(cc,0); PMat L; std::string st;
  if(!structured) L=gen_pmat(g,r,cc,1+g.draw(6),&st);
  else { u64 k=g.draw(8); Rng q(g.seed32());
    if(k<4){ L=gen_popov(g,r,cc,s0,4,k<2); st=k<2?"popov":"ordweak"; }
    else { // echelon matrix
      st="echelon"; long z=k==7?(long)q.below(r+1):0; std::vector<long> cols(cc); for(long i=0;i<cc;i++) cols[i]=i; for(long i=0;i<cc;i++) std::swap(cols[i],cols[i+q.below(cc-i)]); cols.resize(r-z); std::sort(cols.begin(),cols.end()); L=PMat(r,cc); VL pd(r,0); for(auto&v:pd) v=(long)q.below(4);
      for(long i=z;i<r;i++){ long pc=cols[i-z]; for(long j=0;j<pc;j++){ long mx=3; if(k>=5) for(long t=z;t<r;t++) if(t!=i&&cols[t-z]==j) mx=pd[t]-1; if(mx>=0&&q.below(6)){ Poly p(mx+1); for(auto&v:p) v=q()%ref::P; ref::norm(p); L.at(i,j)=p; } } Poly p(pd[i]); for(auto&v:p) v=q()%ref::P; p.push_back(k>=5&&q.below(12)?1%ref::P:1+q()%(ref::P-1)); L.at(i,pc)=p; } }
    // near misses: a perturbed entry, swapped rows, a zeroed row, a scaled row
    if(g.coin(1,2)&&r>0){ long i=q.below(r),k2=q.below(r),j=q.below(cc); switch(g.draw(6)){ case 0: for(long t=0;t<cc;t++) std::swap(L.at(i,t),L.at(k2,t)); st+="+swap"; break; case 1: for(long t=0;t<cc;t++) L.at(i,t).clear(); st+="+zero"; break; case 2: { u64 v=1+q()%(ref::P-1); for(long t=0;t<cc;t++) L.at(i,t)=ref::pscale(L.at(i,t),v); st+="+scale"; break; } case 3: { Poly p=L.at(i,j); long d=std::max(0L,ref::deg(L.at(k2,j))+(long)q.below(3)-1); p.resize(d+1,0); p[d]=1; p.resize(d+1); ref::norm(p); L.at(i,j)=p; st+="+entry"; break; } case 4: for(long t=0;t<cc;t++) L.at(i,t)=L.at(k2,t); st+="+repeat"; break; default: L.at(i,j).clear(); st+="+hole"; } } }
  c.note("style",st); c.tag("style:"+st.substr(0,st.find('+'))); x.L=L; x.sl=s0; x.A=fromlow(L,x.o); x.s=isplain(x.o)?s0:vrev(s0); c.note("shift",vstr(x.s)); long nz=0; for(auto&p:L.a) nz+=ref::deg(p)>=0; NONTRIVIAL(c,nz>=2&&(r>=2||cc>=2)); return x; }
static void degrees(Gen&g,Case&c){ In x=gen_in(g,c,g.coin(1,3)); FPM M(g,x.A); long R=x.A.r,C=x.A.c; 
  for(int col=0;col<2;col++) for(int zero=0;zero<2;zero++) for(int sh=0;sh<2;sh++){ PMat B=col?ref::mtr(x.A):x.A; VL s(B.c,0); Rng q(g.s+7*col+sh); if(sh){ if((long)x.s.size()==B.c) s=x.s; else for(auto&v:s) v=(long)q.below(9)-4; } VL want=rrdeg(B,s); long mn=s.empty()?0:*std::min_element(s.begin(),s.end()); if(zero) for(auto&v:want) if(v<mn) v=mn; std::vector<slong> got(B.r+1,-777); const slong*sp=sh?s.data():nullptr; static slong dummy[1]; if(sh&&B.c==0) sp=dummy; ulong n;
    if(!col) n=zero?nmod_poly_mat_row_degree_zero(got.data(),M,sp):nmod_poly_mat_row_degree(got.data(),M,sp); else n=zero?nmod_poly_mat_column_degree_zero(got.data(),M,sp):nmod_poly_mat_column_degree(got.data(),M,sp);
    std::string w=std::string(col?"column":"row")+" degree"+(zero?" (zero variant)":"")+(sh?" shifted "+vstr(s):""); CHECK(got[B.r]==-777,w+": wrote beyond its length"); for(long i=0;i<B.r;i++) CHECK(got[i]==want[i],w+": "+std::to_string(got[i])+" instead of "+std::to_string(want[i])+" at "+std::to_string(i)); CHECK((long)n==nnzr(B),w+": count of nonzero vectors "+std::to_string(n)); }
  fmpz_mat_t D; fmpz_mat_init(D,R,C); nmod_poly_mat_degree_matrix(D,M); for(long i=0;i<R;i++) for(long j=0;j<C;j++) CHECK(*fmpz_mat_entry(D,i,j)==ref::deg(x.A.at(i,j)),"degree matrix wrong"+at2(i,j));
  nmod_poly_mat_degree_matrix_shifted(D,M,x.sp(),x.o); for(long i=0;i<R;i++) for(long j=0;j<C;j++) CHECK(*fmpz_mat_entry(D,i,j)==ref::deg(x.A.at(i,j))+x.s[isrow(x.o)?j:i],"shifted degree matrix wrong"+at2(i,j)); fmpz_mat_clear(D); M.kept("degrees"); }
static void pivots(Gen&g,Case&c){ In x=gen_in(g,c,g.coin(1,2)); FPM M(g,x.A); long n=x.L.r,len=x.L.c; VL wi,wd; rpiv(x.L,x.sl,wi,wd); std::vector<slong> i1(n+1,-777),i2(n+1,-777),d2(n+1,-777);
  auto cmp=[&](const std::vector<slong>&got,const VL&want,bool idx,const char*w){ CHECK(got[n]==-777,std::string(w)+": wrote beyond its length"); VL G(got.begin(),got.begin()+n); VL l=idx?pivlow(G,len,x.o):(isplain(x.o)?G:vrev(G)); CHECK(l==want,std::string(w)+" "+vstr(G)+" instead of (row-lower) "+vstr(want)); };
  ulong a=nmod_poly_mat_pivot_index(i1.data(),M,x.sp(),x.o),b=nmod_poly_mat_pivot_profile(i2.data(),d2.data(),M,x.sp(),x.o); cmp(i1,wi,true,"pivot index"); cmp(i2,wi,true,"pivot index of the profile"); cmp(d2,wd,false,"pivot degree"); CHECK((long)a==nnzr(x.L)&&(long)b==nnzr(x.L),"number of nonzero vectors returned with the pivots");
  VL ei,ed; r_ech(x.L,ei,ed); std::fill(i1.begin(),i1.end(),-777); i2=i1; d2=i1; nmod_poly_mat_echelon_pivot_index(i1.data(),M,x.o); nmod_poly_mat_echelon_pivot_profile(i2.data(),d2.data(),M,x.o); cmp(i1,ei,true,"echelon pivot index"); cmp(i2,ei,true,"echelon pivot index of the profile"); cmp(d2,ed,false,"echelon pivot degree");
  FM lm(x.A.r,x.A.c); if(g.coin(1,2)) for(long i=0;i<x.A.r;i++) for(long j=0;j<x.A.c;j++) nmod_mat_entry(lm.m,i,j)=ref::P-1; nmod_poly_mat_leading_matrix(lm,M,x.sp(),x.o); CMat want=rlmat(x.L,x.sl); if(!isplain(x.o)) want=crev(want); if(!isrow(x.o)) want=ref::ctr(want); ckc(lm.val(),want,"leading matrix"); M.kept("pivots");
  if(n>0&&isrow(x.o)){ long i=(long)g.draw(n); slong pi,pd; ulong nz=_nmod_poly_vec_pivot_profile(&pi,&pd,nmod_poly_mat_entry(M.m,i,0),x.sp(),len,x.o); VL wi2=isplain(x.o)?wi:vrev(wi),wd2=isplain(x.o)?wd:vrev(wd); if(!isplain(x.o)) for(auto&v:wi2) v=len-1-v; CHECK(pi==wi2[i]&&pd==wd2[i]&&(nz!=0)==(wd2[i]>=0),"pivot profile of a vector"); } }
static void forms(Gen&g,Case&c){ In x=gen_in(g,c,g.coin(4,5)); FPM M(g,x.A); const slong*sp=x.sp(); std::string w=std::string(" (")+oname(x.o)+", shift "+vstr(x.s)+") "; 
  bool want[7]={true,f_reduced(x.L,x.sl),f_weak(x.L,x.sl),f_ord(x.L,x.sl),f_popov(x.L,x.sl),f_echelon(x.L),f_hermite(x.L)}; if(x.L.r==0) want[6]=true;
  static const char*nm[7]={"none","reduced","weak Popov","ordered weak Popov","Popov","echelon","Hermite"}; std::string t; for(int k=1;k<7;k++) t+=want[k]?'1':'0'; c.tag("truth:"+t);
  int got[7]={1,nmod_poly_mat_is_reduced(M,sp,x.o),nmod_poly_mat_is_weak_popov(M,sp,x.o),nmod_poly_mat_is_ordered_weak_popov(M,sp,x.o),nmod_poly_mat_is_popov(M,sp,x.o),nmod_poly_mat_is_echelon(M,x.o),nmod_poly_mat_is_hermite(M,x.o)};
  for(int k=1;k<7;k++) CHECK((got[k]!=0)==want[k],std::string("test for ")+nm[k]+" form"+w+"answers "+std::to_string(got[k]));
  for(int k=0;k<7;k++) CHECK((nmod_poly_mat_is_form(M,(poly_mat_form_t)k,sp,x.o)!=0)==want[k],std::string("is_form with ")+nm[k]+w+"is wrong"); M.kept("form tests"); }
std::vector<Sub> SUBS={{"degrees",degrees,200000,3000000,500},{"pivots",pivots,200000,3000000,500},{"forms",forms,300000,4500000,500}};
