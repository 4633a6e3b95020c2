// C14: polynomial matrix utilities and linear arithmetic
#include "pm.h"
const char* PROP_RULE="random polynomial matrices/vectors (0..70 rows and columns, degree -1..80, unequal entry degrees, zero, sparse, low rank) over every kind of modulus, outputs fresh/dirty/aliased; each utility and linear operation compared entrywise with schoolbook arithmetic and inputs checked unchanged; non-trivial: at least 2 entries and degree at least 1";
std::vector<std::string> ASSUMPTIONS={"aliasing only where the header allows it; shift amounts and truncation orders non-negative where the header asks for it"};
std::vector<Known> KNOWN={};
static void dims(Gen&g,Case&c,long&r,long&k,long&d){ u64 m=g.draw(8); if(m==0){ r=g.size(0,70); k=g.size(0,70); d=g.size(0,4);} else if(m==1){ r=g.size(0,4); k=g.size(0,4); d=g.size(0,80);} else { r=g.size(0,6); k=g.size(0,6); d=g.size(0,7);} if(g.coin(1,3)) k=r; c.note("r",r); c.note("c",k); c.note("d",d-1); }
#define PRE Field f=gen_field(g); note_field(c,f); long r,k,d; dims(g,c,r,k,d); PMat A=gen_pmat(g,r,k,d); NONTRIVIAL(c,r*k>=2&&ref::mdeg(A)>=1); Mat<zz_pX> a=put(A);
static void t_util(Gen&g,Case&c){ PRE u64 op=g.draw(20); c.note("op",op); bool al=g.coin(1,3); c.note("alias",al); Mat<zz_pX> o; if(!al) o=outm(g,r,k); Mat<zz_pX>&R=al?a:o; PMat W=A; bool cmp=true; long n=g.range(0,d+3);
  switch(op){
   case 0: { long e=g.range(-d-2,d+3); c.note("n",e); W=ref::mmap(A,[&](const Poly&p){return ref::pshl(p,e);}); switch(g.draw(4)){ case 0: LeftShift(R,a,e); break; case 1: RightShift(R,a,-e); break; case 2: R=a; R<<=e; break; default: R=a; R>>=-e; } break; }
   case 1: case 2: { if(r==0) throw Discard(); long i=(long)g.draw(r),e=g.range(-d-2,d+3); for(long j=0;j<k;j++) W.at(i,j)=ref::pshl(A.at(i,j),e); if(op==1) LeftShiftRow(R,a,i,e); else RightShiftRow(R,a,i,-e); break; }
   case 3: case 4: { if(k==0) throw Discard(); long j=(long)g.draw(k),e=g.range(-d-2,d+3); for(long i=0;i<r;i++) W.at(i,j)=ref::pshl(A.at(i,j),e); if(op==3) LeftShiftCol(R,a,j,e); else RightShiftCol(R,a,j,-e); break; }
   case 5: W=ref::mtrunc(A,n); trunc(R,a,n); break;
   case 6: { if(r==0) throw Discard(); long i=(long)g.draw(r); for(long j=0;j<k;j++) W.at(i,j)=ref::ptrunc(A.at(i,j),n); truncRow(R,a,i,n); break; }
   case 7: { if(k==0) throw Discard(); long j=(long)g.draw(k); for(long i=0;i<r;i++) W.at(i,j)=ref::ptrunc(A.at(i,j),n); truncCol(R,a,j,n); break; }
   case 8: W=ref::mtr(A); if(g.coin(1,4)) R=transpose(a); else transpose(R,a); break;
   case 9: { long h=g.coin(1,4)?-1:n; if(g.coin(1,4)){ h=ref::mdeg(A); reverse(R,a); } else reverse(R,a,h); W=ref::mmap(A,[&](const Poly&p){return ref::prev(p,h);}); break; }
   case 10: { VecLong h(r); for(auto&x:h) x=g.range(-1,d+2); for(long i=0;i<r;i++) for(long j=0;j<k;j++) W.at(i,j)=ref::prev(A.at(i,j),h[i]); row_reverse(R,a,h); break; }
   case 11: { VecLong h(k); for(auto&x:h) x=g.range(-1,d+2); for(long i=0;i<r;i++) for(long j=0;j<k;j++) W.at(i,j)=ref::prev(A.at(i,j),h[j]); col_reverse(R,a,h); break; }
   case 12: { CMat e; if(g.coin(1,2)){ u64 x=gen_elem(g); Mat<zz_p> E=outc(g,r,k); eval(E,a,Z(x)); ckc(get(E),ref::meval(A,x),"evaluation"); } else { Mat<zz_p> E=outc(g,r,k); GetCoeff(E,a,n); ckc(get(E),ref::mcoef(A,n),"GetCoeff"); CHECK(coeff(a,n)==E,"coeff"); } cmp=false; break; }
   case 13: { CMat e=gen_cmat(g,r,k); for(size_t i=0;i<W.a.size();i++){ if((long)W.a[i].size()<=n) W.a[i].resize(n+1,0); W.a[i][n]=e.a[i]; ref::norm(W.a[i]); } R=a; SetCoeff(R,n,put(e)); break; }
   case 14: { // conversions, degree deduced
     Vec<Mat<zz_p>> v; if(g.coin(1,3)) random(v,r,k,(long)g.draw(5)); conv(v,a); CHECK(v.length()==ref::mdeg(A)+1,"conv: wrong number of coefficients"); for(long i=0;i<v.length();i++) ckc(get(v[i]),ref::mcoef(A,i),"conv to coefficient list"); if(v.length()==0){ o=dirtyp(g,r,k); conv(o,v); W=PMat(r,k); ckm(o,W,"conv from empty list (keeps dimensions)"); } else { conv(o,v); ckm(o,A,"conv from coefficient list"); Mat<zz_p> E; u64 x=gen_elem(g); eval(E,v,Z(x)); ckc(get(E),ref::meval(A,x),"evaluation of coefficient list"); } cmp=false; break; }
   case 15: { Vec<Mat<zz_p>> v; conv(v,a,n); CHECK(v.length()==n,"conv: wrong length"); for(long i=0;i<n;i++) ckc(get(v[i]),ref::mcoef(A,i),"conv to coefficient list with order"); long n2=g.range(0,n+2); c.note("n2",n2); if(std::min(n,n2)==0) o=dirtyp(g,r,k); conv(o,v,n2); ckm(o,ref::mtrunc(A,std::min(n,n2)),"conv from coefficient list with order"); cmp=false; break; }
   case 16: { CMat e=gen_cmat(g,r,k); conv(o,put(e)); ckm(o,ref::mconst(e),"conv from constant matrix"); CHECK(IsConstant(o),"IsConstant"); cmp=false; break; }
   case 17: { CHECK(deg(a)==ref::mdeg(A),"deg wrong"); CHECK(IsZero(a)==(ref::mdeg(A)<0),"IsZero wrong"); CHECK(IsConstant(a)==(ref::mdeg(A)<=0),"IsConstant wrong"); PMat I=ref::mident(r); o=outm(g,r,r); ident(o,r); ckm(o,I,"ident"); ckm(ident_mat_zz_pX(r),I,"ident_mat"); CHECK(IsIdent(o)&&IsIdent(o,r)&&!IsIdent(o,r+1),"IsIdent of identity"); CHECK(IsIdent(a)==(r==k&&ref::meq(A,I)),"IsIdent wrong"); if(r>0){ Mat<zz_pX> b=o; long i=(long)g.draw(r),j=(long)g.draw(r); b[i][j]+=put(ref::pshl(Poly{1%ref::P},(long)g.draw(4))); CHECK(!IsIdent(b)&&!IsIdent(b,r),"IsIdent accepts a perturbed identity"); } cmp=false; break; }
   case 18: { long i0=(long)g.draw(r+2),j0=(long)g.draw(k+2),h=(long)g.draw(r+2),w=(long)g.draw(k+2); for(long i=i0;i<std::min(r,i0+h);i++) for(long j=j0;j<std::min(k,j0+w);j++) W.at(i,j).clear(); R=a; clear(R,i0,j0,h,w); if(g.coin(1,8)){ clear(R); W=PMat(r,k); } break; }
   default: { VecLong rd(r),cd(k); for(auto&x:rd) x=(long)g.draw(6); for(auto&x:cd) x=(long)g.draw(6); Mat<zz_pX> m; random(m,r,k,n); CHECK(m.NumRows()==r&&m.NumCols()==k&&ref::mdeg(get(m))<std::max(n,1L)&&(n>0||IsZero(m)),"random: degree"); random_mat_zz_pX_rdeg(m,r,k,rd); PMat M=get(m); for(long i=0;i<r;i++) for(long j=0;j<k;j++) CHECK(ref::deg(M.at(i,j))<std::max(rd[i],0L)+(rd[i]==0?0:0)||ref::deg(M.at(i,j))<0,"random rdeg"); random_mat_zz_pX_cdeg(m,r,k,cd); M=get(m); for(long i=0;i<r;i++) for(long j=0;j<k;j++) CHECK(ref::deg(M.at(i,j))<cd[j]||ref::deg(M.at(i,j))<0,"random cdeg"); cmp=false; } }
  if(cmp) ckm(R,W,"result of utility "+std::to_string(op)); if(&R!=&a||!cmp) ckm(a,A,"input after utility"); }
static void t_arith(Gen&g,Case&c){ PRE PMat B=g.coin(1,6)?A:gen_pmat(g,r,k,g.coin(1,2)?d:g.size(0,7)); if(g.coin(1,8)) B=ref::mmap(A,[](const Poly&p){return ref::pneg(p);}); Mat<zz_pX> b=put(B); CMat K=gen_cmat(g,r,k); Mat<zz_p> kc=put(K); u64 op=g.draw(13); u64 al=g.draw(3); c.note("op",op); c.note("alias",al); Mat<zz_pX> o=outm(g,r,k); Mat<zz_pX>*R=al==0?&o:al==1?&a:&b; PMat W;
  switch(op){
   case 0: W=ref::madd(A,B); if(g.coin(1,3)){ if(al==1){ a+=b; } else *R=a+b; } else add(*R,a,b); break;
   case 1: W=ref::msub(A,B); if(g.coin(1,3)){ if(al==1){ a-=b; } else *R=a-b; } else sub(*R,a,b); break;
   case 2: W=ref::madd(A,ref::mconst(K)); if(g.coin(1,2)) add(*R,a,kc); else add(*R,kc,a); break;
   case 3: W=ref::msub(A,ref::mconst(K)); sub(*R,a,kc); break;
   case 4: W=ref::msub(ref::mconst(K),A); sub(*R,kc,a); break;
   case 5: W=ref::mmap(A,[](const Poly&p){return ref::pneg(p);}); if(g.coin(1,3)) *R=-a; else negate(*R,a); break;
   case 6: { u64 s=gen_elem(g); W=ref::mmap(A,[&](const Poly&p){return ref::pscale(p,s);}); if(g.coin(1,3)) *R=Z(s)*a; else if(g.coin(1,2)) mul(*R,Z(s),a); else mul(*R,a,Z(s)); break; }
   case 7: { Poly s=gen_poly(g,g.size(0,8)); zz_pX z=put(s); W=ref::mmap(A,[&](const Poly&p){return ref::pmul(p,s);}); if(g.coin(1,2)) mul(*R,z,a); else mul(*R,a,z); break; }
   case 8: { if(al==2) R=&o; long e=1+(long)g.draw(d+3); c.note("k",e); W=ref::madd(A,ref::mmap(B,[&](const Poly&p){return ref::pshl(p,e);})); add_LeftShift(*R,a,b,e); break; }
   case 9: case 10: { long q=g.size(0,g.coin(1,6)?40:5); c.note("q",q); CMat M=gen_cmat(g,k,q); Mat<zz_p> m=put(M); W=ref::mmul(A,ref::mconst(M)); if(g.coin(1,4)&&al==1){ a*=m; } else if(g.coin(1,4)) *R=a*m; else mul(*R,a,m); CHECK(get(m)==M,"constant factor changed"); break; }
   default: { long q=g.size(0,g.coin(1,6)?40:5); c.note("q",q); CMat M=gen_cmat(g,q,r); Mat<zz_p> m=put(M); W=ref::mmul(ref::mconst(M),A); if(g.coin(1,4)) *R=m*a; else mul(*R,m,a); CHECK(get(m)==M,"constant factor changed"); } }
  ckm(*R,W,"result"); if(R!=&a) ckm(a,A,"first input afterwards"); if(R!=&b) ckm(b,B,"second input afterwards"); CHECK(get(kc)==K,"constant input changed"); }
static void t_vec(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=g.size(0,g.coin(1,4)?60:6),d=g.size(0,g.coin(1,4)?60:6); c.note("n",n); c.note("d",d-1); PV A=gen_pv(g,n,d),B=gen_pv(g,n,g.size(0,7)),W(n); NONTRIVIAL(c,n>=2&&d>=2); Vec<zz_pX> a=putpv(A),b=putpv(B),o; if(g.coin(1,3)) o=putpv(gen_pv(g,g.size(0,5),3)); ref::Vec K=gen_list(g,n); Vec<zz_p> kc=putv(K); u64 op=g.draw(13),al=g.draw(3); c.note("op",op); c.note("alias",al); Vec<zz_pX>*R=al==0?&o:al==1?&a:&b; long e=g.range(0,d+2); u64 s=gen_elem(g); Poly sp=gen_poly(g,5);
  auto kp=[&](long i){ Poly p{K[i]}; ref::norm(p); return p; };
  switch(op){
   case 0: for(long i=0;i<n;i++) W[i]=ref::padd(A[i],B[i]); if(g.coin(1,3)) *R=a+b; else add(*R,a,b); break;
   case 1: for(long i=0;i<n;i++) W[i]=ref::psub(A[i],B[i]); if(g.coin(1,3)) *R=a-b; else sub(*R,a,b); break;
   case 2: for(long i=0;i<n;i++) W[i]=ref::padd(A[i],kp(i)); if(g.coin(1,2)) add(*R,a,kc); else add(*R,kc,a); break;
   case 3: for(long i=0;i<n;i++) W[i]=ref::psub(A[i],kp(i)); sub(*R,a,kc); break;
   case 4: for(long i=0;i<n;i++) W[i]=ref::psub(kp(i),A[i]); sub(*R,kc,a); break;
   case 5: for(long i=0;i<n;i++) W[i]=ref::pneg(A[i]); negate(*R,a); break;
   case 6: for(long i=0;i<n;i++) W[i]=ref::pscale(A[i],s); if(g.coin(1,2)) mul(*R,a,Z(s)); else mul(*R,Z(s),a); break;
   case 7: for(long i=0;i<n;i++) W[i]=ref::pmul(A[i],sp); if(g.coin(1,2)) mul(*R,a,put(sp)); else mul(*R,put(sp),a); break;
   case 8: if(al==2) R=&o; e=e<1?1:e; for(long i=0;i<n;i++) W[i]=ref::padd(A[i],ref::pshl(B[i],e)); add_LeftShift(*R,a,b,e); break;
   case 9: for(long i=0;i<n;i++) W[i]=A[n-1-i]; mirror(*R,a); break;
   case 10: for(long i=0;i<n;i++) W[i]=ref::ptrunc(A[i],e); trunc(*R,a,e); break;
   case 11: { long h=g.range(-d-1,d+2); for(long i=0;i<n;i++) W[i]=ref::pshl(A[i],h); if(g.coin(1,2)) LeftShift(*R,a,h); else RightShift(*R,a,-h); break; }
   default: { long D=-1; for(auto&p:A) D=std::max(D,ref::deg(p)); CHECK(deg(a)==D,"deg(vector)"); CHECK(IsZero(a)==(D<0),"IsZero(vector)"); W=A; R=&a; } }
  ckv(get(*R),W,"vector result"); if(R!=&a) ckv(get(a),A,"first input afterwards"); if(R!=&b) ckv(get(b),B,"second input afterwards"); CHECK(get(kc)==K,"constant input changed"); }
// the overloads returning their result and the operators: same values as the forms checked above
#define SM(W,X,S) do{ Mat<zz_pX> o_; W; Mat<zz_pX> x_=(X); CHECK(x_==o_&&x_.NumRows()==o_.NumRows()&&x_.NumCols()==o_.NumCols(),std::string(S)+": returned value differs"); ckm(a,A,S); }while(0)
#define SV(W,X,S) do{ Vec<zz_pX> o_; W; CHECK((X)==o_,std::string(S)+": returned value differs"); ckv(get(v),V,S); }while(0)
static void t_ret(Gen&g,Case&c){ PRE u64 op=g.draw(15); c.note("op",op); long n=g.range(0,d+3),e=g.range(-d-2,d+3); c.note("n",n); c.note("e",e); u64 s=gen_elem(g); Poly sp=gen_poly(g,6); zz_pX z=put(sp);
  if(op>=10){ PV V=gen_pv(g,r,d); Vec<zz_pX> v=putpv(V);
   switch(op){ case 10: SV(LeftShift(o_,v,e),LeftShift(v,e),"LeftShift(vector)"); SV(LeftShift(o_,v,e),v<<e,"vector <<"); SV(LeftShift(o_,v,e),[&]{ Vec<zz_pX> y=v; y<<=e; return y; }(),"vector <<="); break;
    case 11: SV(RightShift(o_,v,e),RightShift(v,e),"RightShift(vector)"); SV(RightShift(o_,v,e),v>>e,"vector >>"); SV(RightShift(o_,v,e),[&]{ Vec<zz_pX> y=v; y>>=e; return y; }(),"vector >>="); break;
    case 12: SV(trunc(o_,v,n),trunc(v,n),"trunc(vector)"); SV(mirror(o_,v),mirror(v),"mirror"); SV(negate(o_,v),-v,"-vector"); break;
    case 13: SV(mul(o_,v,Z(s)),v*Z(s),"vector*scalar"); SV(mul(o_,v,Z(s)),Z(s)*v,"scalar*vector"); break;
    default: SV(mul(o_,v,z),v*z,"vector*polynomial"); SV(mul(o_,v,z),z*v,"polynomial*vector"); } return; }
  switch(op){
   case 0: SM(LeftShift(o_,a,e),LeftShift(a,e),"LeftShift"); SM(LeftShift(o_,a,e),a<<e,"<<"); break;
   case 1: SM(RightShift(o_,a,e),RightShift(a,e),"RightShift"); SM(RightShift(o_,a,e),a>>e,">>"); break;
   case 2: { if(r==0||k==0) throw Discard(); long i=(long)g.draw(r),j=(long)g.draw(k); SM(LeftShiftRow(o_,a,i,e),LeftShiftRow(a,i,e),"LeftShiftRow"); SM(LeftShiftCol(o_,a,j,e),LeftShiftCol(a,j,e),"LeftShiftCol"); SM(RightShiftRow(o_,a,i,e),RightShiftRow(a,i,e),"RightShiftRow"); SM(RightShiftCol(o_,a,j,e),RightShiftCol(a,j,e),"RightShiftCol"); break; }
   case 3: { SM(trunc(o_,a,n),trunc(a,n),"trunc"); if(r==0||k==0) throw Discard(); long i=(long)g.draw(r),j=(long)g.draw(k); SM(truncRow(o_,a,i,n),truncRow(a,i,n),"truncRow"); SM(truncCol(o_,a,j,n),truncCol(a,j,n),"truncCol"); break; }
   case 4: { SM(reverse(o_,a),reverse(a),"reverse"); SM(reverse(o_,a,n),reverse(a,n),"reverse with degree"); VecLong h(r),h2(k); for(auto&x:h) x=g.range(-1,d+2); for(auto&x:h2) x=g.range(-1,d+2); SM(row_reverse(o_,a,h),row_reverse(a,h),"row_reverse"); SM(col_reverse(o_,a,h2),col_reverse(a,h2),"col_reverse"); break; }
   case 5: { ckc(get(eval(a,Z(s))),ref::meval(A,s),"eval returned"); Vec<Mat<zz_p>> v; conv(v,a); CHECK(PML::conv(a)==v,"conv(matrix) returned"); Vec<Mat<zz_p>> w; conv(w,a,n); CHECK(PML::conv(a,n)==w,"conv(matrix, order) returned"); if(v.length()){ Mat<zz_pX> o; conv(o,v); CHECK(PML::conv(v)==o,"conv(list) returned"); conv(o,v,n); if(n>0) CHECK(PML::conv(v,n)==o,"conv(list, order) returned"); ckc(get(eval(v,Z(s))),ref::meval(A,s),"eval(list) returned"); } break; }
   case 6: { CMat K=gen_cmat(g,r,k); ckm(PML::conv(put(K)),ref::mconst(K),"conv(constant) returned"); break; }
   case 7: SM(mul(o_,a,Z(s)),a*Z(s),"matrix*scalar"); SM(mul(o_,a,Z(s)),Z(s)*a,"scalar*matrix"); break;
   default: SM(mul(o_,a,z),a*z,"matrix*polynomial"); SM(mul(o_,a,z),z*a,"polynomial*matrix"); } }
std::vector<Sub> SUBS={{"utilities",t_util,120000,2000000,400},{"arithmetic",t_arith,80000,1500000,400},{"vectors",t_vec,60000,1000000,400},{"returned-values",t_ret,40000,600000,400}};
