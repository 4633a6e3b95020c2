// C34: calls the interface declares erroneous are refused, and nothing is damaged by the refusal
#include "st.h"
#include "pm.h"
#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linearization.h"
#include "structured_lzz_pX.h"
#include "lzz_pX_CRT.h"
#include "lzz_pX_extra.h"
#include "lzz_p_extra.h"
const char* PROP_RULE="one call whose arguments break exactly one documented condition - incompatible dimensions in sums, differences, shifted sums, products by constant matrices, coefficient setting and joining; a shift of the wrong length for every degree, pivot, leading-matrix and form query; a non-square matrix or a singular constant term for every truncated inverse; an operand of the wrong size for every structured matrix; a degree above the announced bound for multipliers, evaluation points and Taylor shifts; an order, length or precision out of range - must end in an error report, leave its read-only arguments as they were and leave the object usable (a correct call on the same object follows and is checked); one case in five repairs the arguments instead, and the call must then succeed; non-trivial: the call is the erroneous one and all dimensions are at least 1";
std::vector<std::string> ASSUMPTIONS={"an error is NTL's error report (TerminalError, which ends the program unless a callback is installed) or a C++ exception; the checks install a callback"};
std::vector<Known> KNOWN={};
// NTL reports errors through TerminalError (message, callback, abort) or, where configured so, through exceptions: both count as a refusal
struct Refusal {}; static void on_error(){ throw Refusal(); } static void on_msg(const char*){}
struct Guard { Guard(){ NTL::ErrorCallback=on_error; NTL::ErrorMsgCallback=on_msg; } ~Guard(){ NTL::ErrorCallback=nullptr; NTL::ErrorMsgCallback=nullptr; } };
template<class F> static bool refused(F f){ Guard gd; try{ f(); return false; }catch(Refusal&){ return true; }catch(const std::exception&){ return true; } }
static void want(bool bad,bool r,const std::string&w){ if(bad) CHECK(r,w+": erroneous call accepted"); else CHECK(!r,w+": correct call refused"); }
typedef std::vector<long> VL;
static long other(Gen&g,long n,long mx){ for(;;){ long k=(long)g.draw(mx+1); if(k!=n) return k; k=n+1; return k; } }
static void t_arith(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool bad=!g.coin(1,5); long o=(long)g.draw(18); long m=1+g.size(0,5),n=1+g.size(0,5),m2=m,n2=n; NONTRIVIAL(c,bad);
  static const char*nm[]={"add","add-const","const-add","sub","sub-const","const-sub","vadd","vadd-const","vconst-add","vsub","vsub-const","vconst-sub","add_LeftShift","vadd_LeftShift","mul-const","const-mul","SetCoeff","horizontal_join"}; c.note("op",nm[o]); c.note("bad",bad); c.tag(std::string("op:")+nm[o]);
  bool vec=(o>=6&&o<=11)||o==13; if(o==14||o==15){ m2=n; n2=1+(long)g.draw(5); if(bad) m2=other(g,n,6); } else if(o==17){ n2=1+(long)g.draw(5); if(bad) m2=other(g,m,6); } else if(bad){ u64 z=vec?0:g.draw(3); if(z!=1) m2=other(g,m,6); if(z!=0) n2=other(g,n,6); }
  c.note("a",std::to_string(m)+"x"+std::to_string(n)); c.note("b",std::to_string(m2)+"x"+std::to_string(n2)); long d=g.size(0,6);
  PMat A=gen_pmat(g,m,n,d),B=gen_pmat(g,m2,n2,d); CMat AC=gen_cmat(g,m,n),BC=gen_cmat(g,m2,n2); Mat<zz_pX> a=put(A),b=put(B),r; Mat<zz_p> ac=put(AC),bc=put(BC); PV va(A.a.begin(),A.a.begin()+std::min<long>(A.a.size(),m)),vb; va=gen_pv(g,m,d); vb=gen_pv(g,m2,d); ref::Vec wa=gen_list(g,m),wb=gen_list(g,m2); Vec<zz_pX> xa=putpv(va),xb=putpv(vb),xr; Vec<zz_p> ya=putv(wa),yb=putv(wb); bool form=g.coin(1,2),inpl=g.coin(1,4);
  bool rf=refused([&]{ switch(o){ case 0: if(inpl) { Mat<zz_pX> t=a; t+=b; } else if(form) r=a+b; else add(r,a,b); break; case 1: if(inpl){ Mat<zz_pX> t=a; t+=bc; } else if(form) r=a+bc; else add(r,a,bc); break; case 2: if(form) r=ac+b; else add(r,ac,b); break; case 3: if(inpl){ Mat<zz_pX> t=a; t-=b; } else if(form) r=a-b; else sub(r,a,b); break; case 4: if(inpl){ Mat<zz_pX> t=a; t-=bc; } else if(form) r=a-bc; else sub(r,a,bc); break; case 5: if(form) r=ac-b; else sub(r,ac,b); break;
    case 6: if(inpl){ Vec<zz_pX> t=xa; t+=xb; } else if(form) xr=xa+xb; else add(xr,xa,xb); break; case 7: if(inpl){ Vec<zz_pX> t=xa; t+=yb; } else if(form) xr=xa+yb; else add(xr,xa,yb); break; case 8: if(form) xr=ya+xb; else add(xr,ya,xb); break; case 9: if(inpl){ Vec<zz_pX> t=xa; t-=xb; } else if(form) xr=xa-xb; else sub(xr,xa,xb); break; case 10: if(inpl){ Vec<zz_pX> t=xa; t-=yb; } else if(form) xr=xa-yb; else sub(xr,xa,yb); break; case 11: if(form) xr=ya-xb; else sub(xr,ya,xb); break;
    case 12: add_LeftShift(r,a,b,(long)g.draw(4)); break; case 13: add_LeftShift(xr,xa,xb,(long)g.draw(4)); break; case 14: if(inpl){ Mat<zz_pX> t=a; t*=bc; } else if(form) r=a*bc; else mul(r,a,bc); break; case 15: if(form) r=ac*b; else mul(r,ac,b); break; case 16: { Mat<zz_pX> t=a; SetCoeff(t,(long)g.draw(5),bc); break; } default: horizontal_join(r,a,b); } });
  want(bad,rf,nm[o]); ckm(a,A,"left operand afterwards"); ckm(b,B,"right operand afterwards"); CHECK(get(xa)==va&&get(xb)==vb&&get(ya)==wa&&get(yb)==wb&&get(ac)==AC&&get(bc)==BC,"operand changed"); }
static void t_forms(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool bad=!g.coin(1,5); long m=1+g.size(0,4),n=1+g.size(0,4),o=(long)g.draw(11); bool row=g.coin(1,2); NONTRIVIAL(c,bad); static const char*nm[]={"degree","pivots","degree_matrix","leading_matrix","reduced","weak_popov","ordered_weak_popov","popov","polmatform","is_polmatform","degree-out"}; c.note("op",nm[o]); c.note("row",row); c.note("bad",bad); c.tag(std::string("op:")+nm[o]);
  PMat A=gen_pmat(g,m,n,g.size(0,5)); long len=row?n:m; if(bad){ len=other(g,len,7); } VL sh(len); for(auto&x:sh) x=g.range(-3,9); c.note("m",m); c.note("n",n); c.note("len",len); Mat<zz_pX> a=put(A); VecLong s(sh.begin(),sh.end()); PolMatForm fm=(PolMatForm)(1+g.draw(4));
  bool rf=refused([&]{ VecLong u,v; Mat<long> D; Mat<zz_p> L; switch(o){ case 0: row?row_degree(a,s):col_degree(a,s); break; case 10: if(row) row_degree(u,a,s); else col_degree(u,a,s); break; case 1: if(row) row_pivots(u,v,a,s); else col_pivots(u,v,a,s); break; case 2: if(row) degree_matrix_rowshifted(D,a,s); else degree_matrix_colshifted(D,a,s); break; case 3: if(row) row_leading_matrix(L,a,s); else col_leading_matrix(L,a,s); break; case 4: row?is_row_reduced(a,s):is_col_reduced(a,s); break; case 5: row?is_row_weak_popov(a,s):is_col_weak_popov(a,s); break; case 6: row?is_row_ordered_weak_popov(a,s):is_col_ordered_weak_popov(a,s); break; case 7: row?is_row_popov(a,s):is_col_popov(a,s); break; case 8: row?get_row_polmatform(a,s):get_col_polmatform(a,s); break; default: if(row) is_row_polmatform(fm,a,s); else is_col_polmatform(fm,a,s); } });
  want(bad,rf,std::string(row?"row ":"column ")+nm[o]); ckm(a,A,"matrix afterwards"); CHECK(VL(s.begin(),s.end())==sh,"shift changed"); }
static void t_inv(Gen&g,Case&c){ u64 kind=g.draw(5); static const char*nm[]={"auto","plain","FFT","middle_product","geometric"}; Field f=kind==2?gen_field(g,F_FFT|F_USERFFT):gen_field(g,kind==4?F_LARGE:F_ALL,kind==4?100000:0); note_field(c,f); bool bad=!g.coin(1,5); long n=1+g.size(0,4),d=1+g.size(0,8),m=1+g.size(0,g.coin(1,3)?80:12),n2=n; bool sq=!bad||g.coin(1,2); if(!sq) n2=1+other(g,n-1,5); c.note("alg",nm[kind]); c.tag(std::string("alg:")+nm[kind]); c.note("n",n); c.note("cols",n2); c.note("deg",d-1); c.note("order",m); c.note("bad",bad?(sq?"singular":"nonsquare"):"no"); NONTRIVIAL(c,bad);
  PMat A=gen_pmat(g,n,n2,d); CMat C0=gen_cmat(g,n,n2); if(sq){ if(bad){ long k=(long)g.draw(n); CMat U=gen_cmat(g,n,k),V=gen_cmat(g,k,n); C0=ref::cmul(U,V); if(g.coin(1,6)) C0=CMat(n,n); } else { CMat I; if(!ref::cinv(I,C0)){ C0=CMat(n,n); for(long i=0;i<n;i++) C0.at(i,n-1-i)=1%ref::P; } } } for(long i=0;i<n;i++) for(long j=0;j<n2;j++){ Poly&p=A.at(i,j); if(p.empty()) p.resize(1,0); p[0]=C0.at(i,j); ref::norm(p); }
  Mat<zz_pX> a=put(A),r; long th=g.coin(1,2)?-1:1+(long)g.draw(8); bool rf=refused([&]{ switch(kind){ case 0: if(g.coin(1,2)) r=inv_trunc(a,m); else inv_trunc(r,a,m); break; case 1: plain_inv_trunc(r,a,m); break; case 2: newton_inv_trunc_FFT(r,a,m,th); break; case 3: newton_inv_trunc_middle_product(r,a,m,th); break; default: newton_inv_trunc_geometric(r,a,m,th); } });
  want(bad,rf,std::string("truncated inverse ")+nm[kind]); ckm(a,A,"matrix afterwards"); CHECK((u64)zz_p::modulus()==f.p,"modulus changed"); }
template<class M> static void sops(Gen&g,Case&c,const M&m,const CMat&D){ bool bad=!g.coin(1,5); long o=(long)g.draw(4); static const char*nm[]={"mul_right(vector)","mul_left(vector)","mul_right(matrix)","mul_left(matrix)"}; c.note("op",nm[o]); c.note("bad",bad); NONTRIVIAL(c,bad); long len=o%2?D.r:D.c; if(bad) len=g.coin(1,3)?len+1:other(g,len,len+3); c.note("len",len); long q=1+(long)g.draw(3); ref::Vec v=gen_list(g,len); CMat A=o==2?gen_cmat(g,len,q):gen_cmat(g,q,len); Vec<zz_p> V=putv(v),W; Mat<zz_p> X=put(A),Y; bool form=g.coin(1,2);
  bool rf=refused([&]{ switch(o){ case 0: if(form) W=m.mul_right(V); else m.mul_right(W,V); break; case 1: if(form) W=m.mul_left(V); else m.mul_left(W,V); break; case 2: if(form) Y=m.mul_right(X); else m.mul_right(Y,X); break; default: if(form) Y=m.mul_left(X); else m.mul_left(Y,X); } });
  want(bad,rf,nm[o]); CHECK(get(V)==v&&get(X)==A,"operand changed"); if(g.coin(1,2)) st_mulr(g,m,D); else st_mull(g,m,D); }
static void t_struct(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long mx=g.coin(1,4)?120:8; long r=g.size(1,mx),k=g.coin(1,3)?r:g.size(1,mx); c.note("rows",r); c.note("cols",k); u64 o=g.draw(8); static const char*nm[]={"hankel","toeplitz","lower-toeplitz","circulant-row","circulant-column","sylvester","mosaic-hankel","mosaic-toeplitz"}; c.note("class",nm[o]); c.tag(std::string("class:")+nm[o]);
  switch(o){ case 0: { ref::Vec d=gen_list(g,r+k-1); hankel_lzz_p M(putv(d),r,k); sops(g,c,M,get(M.to_dense())); break; } case 1: { ref::Vec d=gen_list(g,r+k-1); toeplitz_lzz_p M(putv(d),r,k); sops(g,c,M,get(M.to_dense())); break; } case 2: { lower_triangular_toeplitz_lzz_p M(putv(gen_list(g,r))); sops(g,c,M,get(M.to_dense())); break; } case 3: { circulant_row_lzz_p M(putv(gen_list(g,k)),r); sops(g,c,M,get(M.to_dense())); break; } case 4: { circulant_column_lzz_p M(putv(gen_list(g,r)),k); sops(g,c,M,get(M.to_dense())); break; }
   case 5: { Poly a=gen_poly(g,r+1),b=gen_poly(g,k+1); a.resize(r+1,0); b.resize(k+1,0); if(!a[r]) a[r]=1; if(!b[k]) b[k]=1; sylvester_lzz_p M(put(a),put(b)); sops(g,c,M,get(M.to_dense())); if(g.coin(1,2)){ long m=r+k+1+(long)g.draw(3); Mat<zz_p> B; c.note("top_right_block",m); CHECK(refused([&]{ M.top_right_block_inverse(B,m); }),"top_right_block_inverse: block larger than the matrix accepted"); } break; }
   case 6: { if(r>30) r=30; if(k>30) k=30; Vec<Vec<hankel_lzz_p>> V; V.SetLength(1); V[0].SetLength(2); for(long j=0;j<2;j++) V[0][j]=hankel_lzz_p(putv(gen_list(g,r+k+j-1)),r,k+j); mosaic_hankel_lzz_p M(V); sops(g,c,M,get(M.to_dense())); if(r!=2*k+1){ hankel_like_minus_lzz_p I; CHECK(refused([&]{ M.inv(I); }),"inv: non-square matrix accepted"); } CHECK(refused([&]{ (void)M(r,0); })&&refused([&]{ (void)M(0,2*k+1); }),"entry outside the matrix accepted"); break; }
   default: { if(r>30) r=30; if(k>30) k=30; Vec<Vec<toeplitz_lzz_p>> V; V.SetLength(2); for(long i=0;i<2;i++){ V[i].SetLength(1); V[i][0]=toeplitz_lzz_p(putv(gen_list(g,r+i+k-1)),r+i,k); } mosaic_toeplitz_lzz_p M(V); sops(g,c,M,get(M.to_dense())); if(2*r+1!=k){ toeplitz_like_minus_lzz_p I; CHECK(refused([&]{ M.inv(I); }),"inv: non-square matrix accepted"); } CHECK(refused([&]{ (void)M(2*r+1,0); })&&refused([&]{ (void)M(0,k); }),"entry outside the matrix accepted"); break; } } }
template<class M> static void spops(Gen&g,Case&c,const M&m,const PMat&D,long d){ bool bad=!g.coin(1,5); long o=(long)g.draw(8); static const char*nm[]={"mul_right(vector)","mul_left(vector)","mul_right_trunc(vector)","mul_left_trunc(vector)","mul_right(matrix)","mul_left(matrix)","mul_right_trunc(matrix)","mul_left_trunc(matrix)"}; c.note("op",nm[o]); c.note("bad",bad); NONTRIVIAL(c,bad); bool rt=o%2==0,mat=o>=4,tr=(o/2)%2; long len=rt?D.c:D.r; if(bad) len=g.coin(1,3)?len+1:other(g,len,len+3); c.note("len",len); long q=1+(long)g.draw(2),s=1+(long)g.draw(8); PMat A=!mat?gen_pmat(g,len,1,d):rt?gen_pmat(g,len,q,d):gen_pmat(g,q,len,d); Mat<zz_pX> X=put(A),Y; Vec<zz_pX> V=putpv(A.a),W;
  bool rf=refused([&]{ if(mat){ if(rt){ if(tr) m.mul_right_trunc(Y,X,s); else m.mul_right(Y,X); } else { if(tr) m.mul_left_trunc(Y,X,s); else m.mul_left(Y,X); } } else { if(rt){ if(tr) m.mul_right_trunc(W,V,s); else m.mul_right(W,V); } else { if(tr) m.mul_left_trunc(W,V,s); else m.mul_left(W,V); } } });
  want(bad,rf,nm[o]); PMat B=gen_pmat(g,D.c,1,d); Vec<zz_pX> U=putpv(B.a),R; m.mul_right(R,U); ckm(([&]{ PMat K(D.r,1); K.a=get(R); CHECK((long)K.a.size()==D.r,"length"); return K; })(),ref::mmul(D,B),"product after the refused call"); }
static void t_structx(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+g.size(0,8),k=g.coin(1,3)?r:1+g.size(0,8),d=1+g.size(0,8); c.note("rows",r); c.note("cols",k); u64 o=g.draw(3); static const char*nm[]={"lower-toeplitz","circulant-row","sylvester"}; c.note("class",nm[o]); c.tag(std::string("class-x:")+nm[o]);
  if(o==0){ PV v=gen_pv(g,r,d); lower_triangular_toeplitz_lzz_pX M(putpv(v)); spops(g,c,M,get(M.to_dense()),d); } else if(o==1){ PV v=gen_pv(g,k,d); circulant_row_lzz_pX M(putpv(v),r); spops(g,c,M,get(M.to_dense()),d); } else { PV a=gen_pv(g,r+1,d),b=gen_pv(g,k+1,d); bool z=g.coin(1,4); if(z) (g.coin(1,2)?a:b).back().clear(); PV*ps[2]={&a,&b}; bool lead=true; for(auto p:ps) if(p->back().empty()) lead=false; if(!lead&&!z) for(auto p:ps) if(p->back().empty()) p->back()=Poly{1%ref::P}; if(!z) lead=true; c.note("leading",lead); bool rf=refused([&]{ sylvester_lzz_pX M(putpv(a),putpv(b)); }); want(!lead,rf,"Sylvester constructor"); NONTRIVIAL(c,!lead); if(lead){ sylvester_lzz_pX M(putpv(a),putpv(b)); spops(g,c,M,get(M.to_dense()),d); } } }
static void t_bounds(Gen&g,Case&c){ u64 o=g.draw(8); static const char*nm[]={"lmultiplier","shift","InvTruncMul","element_of_order","geometric","fft-points","high-order-solve","collapse"}; c.note("op",nm[o]); c.tag(std::string("op:")+nm[o]); bool bad=!g.coin(1,5); c.note("bad",bad); NONTRIVIAL(c,bad);
  switch(o){
   case 0: { Field f=gen_field(g,F_LARGE,100000); note_field(c,f); long m=1+(long)g.draw(4),n=1+(long)g.draw(4),da=g.size(0,10),db=g.size(0,20); u64 k=g.draw(6); if(k>=1&&k<=2&&f.kind!=F_FFT&&f.kind!=F_USERFFT) k=0; PMat A=gen_pmat(g,m,n,da+1); Mat<zz_pX> a=put(A); std::unique_ptr<mat_lzz_pX_lmultiplier> L; switch(k){ case 1: L.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a,db)); break; case 2: L.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a,db)); break; case 3: L.reset(new mat_lzz_pX_lmultiplier_geometric(a,db)); break; default: L=get_lmultiplier(a,db); } c.note("kind",k); c.note("dB",db); long q=1+(long)g.draw(3),e=bad?db+1+(k==0||k>3?0:(long)g.draw(5)):(long)g.draw(db+1); if(k==0||k>3) { if(bad) throw Discard(); } c.note("deg",e); PMat B=gen_pmat_dense(g,n,q,e+1); Poly&p=B.at(0,0); p.resize(e+1,0); if(!p[e]) p[e]=1; Mat<zz_pX> b=put(B),r; bool rf=refused([&]{ L->multiply(r,b); }); want(bad,rf,"multiplier"); ckm(b,B,"operand afterwards"); PMat B2=gen_pmat(g,n,q,db+1); Mat<zz_pX> b2=put(B2),r2; L->multiply(r2,b2); ck_prod(g,A,B2,get(r2),"product after the refused call"); break; }
   case 1: { Field f=gen_field(g,F_LARGE,100000); note_field(c,f); long d=g.size(0,40); u64 cc=gen_elem(g); zz_pX_shift_DAC S(d,Z(cc)); long e=bad?d+1+(long)g.draw(6):(long)g.draw(d+1); Poly p=gen_dense(g,e+1); p.resize(e+1,0); if(!p[e]) p[e]=1; zz_pX a=put(p),r; c.note("d",d); c.note("deg",e); want(bad,refused([&]{ S.shift(r,a); }),"shift"); CHECK(get(a)==p,"operand changed"); break; }
   case 2: { Field f=gen_field(g); note_field(c,f); long m=1+(long)g.draw(12); Poly a=gen_poly(g,6),b=gen_poly(g,6); if(a.empty()) a.resize(1,0); if(bad){ if(g.coin(1,2)) m=-1-(long)g.draw(5); else a[0]=0; } if((!bad||m<0)&&!a[0]) a[0]=1; ref::norm(a); c.note("m",m); zz_pX x,A=put(a),B=put(b); want(bad,refused([&]{ InvTruncMul(x,B,A,m); }),"InvTruncMul"); CHECK(get(A)==a&&get(B)==b,"operand changed"); break; }
   case 3: { Field f=gen_field(g,F_TINY|F_SMALL); note_field(c,f); long ord=bad?(long)f.p+(long)g.draw(20):1+(long)g.draw(std::min<u64>(f.p-1,8)); c.note("order",ord); zz_p a; want(bad,refused([&]{ element_of_order(a,ord,g.coin(1,2)?100:3,g.coin(1,2)); }),"element_of_order"); break; }
   case 4: { Field f=gen_field(g,F_LARGE,100000); note_field(c,f); long n=1+g.size(0,30); zz_p a; element_of_order(a,2*n); if(IsZero(a)) throw Discard(); zz_pX_Multipoint_Geometric ev(a,n); bool prep=g.coin(1,3); long e=bad?n+(long)g.draw(4):(long)g.draw(n); c.note("n",n); c.note("deg",e); c.note("prepare",prep); Poly p=gen_dense(g,e+1); p.resize(e+1,0); if(!p[e]) p[e]=1; zz_pX P=put(p); Vec<zz_p> v; want(bad,refused([&]{ if(prep) ev.prepare_degree(e); else ev.evaluate(v,P); }),prep?"prepare_degree":"evaluate"); CHECK(get(P)==p,"operand changed"); Poly q=gen_dense(g,n); zz_pX Q=put(q); ev.evaluate(v,Q); for(long i=0;i<n;i++){ zz_p x; ev.get_point(x,i); CHECK(get(v[i])==ref::peval(q,get(x)),"evaluation after the refused call"); } break; }
   case 5: { int z=bad?(int)g.draw(2):2; Field f=z==1?gen_field(g,F_SMALL|F_MED|F_BIG):gen_field(g,F_FFT|F_USERFFT); note_field(c,f); long n=1L<<(z==0?2+g.draw(6):g.draw(8)); if(z==0) n+=(g.coin(1,2)?1:-1)*(1+(long)g.draw(n/2-1)); c.note("n",n); want(bad,refused([&]{ zz_pX_Multipoint_FFT ev(n); }),"FFT points"); break; }
   case 6: { Field f=gen_field(g,F_LARGE,100000); note_field(c,f); long n=1+(long)g.draw(4),d=1+g.size(0,6),m=1+g.size(0,30),e=bad?d+(long)g.draw(4):(long)g.draw(d); PMat A=gen_pmat_dense(g,n,n,d+1),B=gen_pmat_dense(g,n,1+(long)g.draw(2),e+1); Poly&p=A.at(0,0); p.resize(d+1,0); if(!p[d]) p[d]=1; Poly&q=B.at(0,0); q.resize(e+1,0); if(!q[e]) q[e]=1; if(ref::cdet(ref::meval(A,0))==0) throw Discard(); c.note("n",n); c.note("degA",d); c.note("degB",e); Mat<zz_pX> a=put(A),b=put(B),u; want(bad,refused([&]{ solve_series_high_order_lifting(u,a,b,m); }),"solve_series_high_order_lifting"); ckm(a,A,"matrix afterwards"); ckm(b,B,"right-hand side afterwards"); break; }
   default: { Field f=gen_field(g); note_field(c,f); long s=1+(long)g.draw(4),t=s*(1+(long)g.draw(3)),d=1+(long)g.draw(4),m=1+(long)g.draw(3); if(bad){ if(s==1) s=2; t=s*(long)g.draw(3)+1+(long)g.draw(s-1); } c.note("s",s); c.note("cols",t); PMat A=gen_pmat(g,m,t,d); Mat<zz_pX> a=put(A),r; bool con=g.coin(1,2); want(bad,refused([&]{ if(con) collapse_consecutive_columns(r,a,d,s); else collapse_nonconsecutive_columns(r,a,d,s); }),"collapse"); ckm(a,A,"matrix afterwards"); } } }
std::vector<Sub> SUBS={{"arith",t_arith,20000,400000,200},{"forms",t_forms,15000,300000,200},{"inverse",t_inv,6000,120000,100},{"structured",t_struct,8000,160000,100},{"structured-poly",t_structx,8000,160000,100},{"bounds",t_bounds,8000,160000,100}};
