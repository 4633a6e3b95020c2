#include "../orient.h"
#include "kern.h"
const char*PROP_RULE="a case is non-trivial when the matrix has at least two rows and two columns and positive degree (triangular and weak Popov forms, determinants) or positive degree, dimension at least 2 and precision at least 2 (truncated inverses and series solutions)";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which passes all of flint-extras' own tests","echelon forms of Mulders-Storjohann type succeed exactly for generic column rank profiles and do not report the row rank profile, as documented","precisions are at least 1; the randomised unimodularity test is only required to reject for moduli above 2^40"};
std::vector<Known> KNOWN={};
static PMat in_mat(Gen&g,Case&c,long maxn=5){ Field f=gen_field(g); note_field(c,f); long m,n,d; u64 z=g.draw(12); if(z<8){ m=1+g.size(0,maxn-1); n=1+g.size(0,maxn-1); d=1+g.size(0,3); } else if(z<10){ m=n=1+(long)g.draw(maxn+1); d=1+(long)g.draw(4); } else { m=1+(long)g.draw(3); n=1+(long)g.draw(3); d=4+(long)g.draw(10); } if(g.coin(1,40)) m=0; if(g.coin(1,40)) n=0; PMat F=m*n?gen_F(g,m,n,d):PMat(m,n); if(m*n&&g.coin(1,5)){ long j=(long)g.draw(n); for(long i=0;i<m;i++) F.at(i,j).clear(); } if(n>1&&m&&g.coin(1,6)){ long j=1+(long)g.draw(n-1); for(long i=0;i<m;i++) F.at(i,j)=F.at(i,j-1); } if(m*n&&g.coin(1,6)){ for(auto&p:F.a) p=ref::ptrunc(p,1); } std::ostringstream o; o<<m<<"x"<<n<<" deg "<<ref::mdeg(F); c.note("F",o.str()); NONTRIVIAL(c,m>=2&&n>=2&&ref::mdeg(F)>=1); return F; }
static PMat hcat(const PMat&A,const PMat&B){ PMat C(A.r,A.c+B.c); for(long i=0;i<A.r;i++){ for(long j=0;j<A.c;j++) C.at(i,j)=A.at(i,j); for(long j=0;j<B.c;j++) C.at(i,A.c+j)=B.at(i,j); } return C; }
// checks that T1=U*[I|T], out=U*in with U unimodular; returns det(U)
static u64 ck_tsf(const PMat&in,const PMat&out,const PMat&T,const PMat&T1,const std::string&w){ long m=in.r; PMat U=ref::msub_block(T1,0,0,m,m); CHECK(ref::meq(ref::mmul(U,in),out),w+": transformation times input is not the output"); CHECK(ref::meq(ref::mmul(U,T),ref::msub_block(T1,0,m,m,T.c)),w+": the operations were not all applied to the transformation matrix"); Poly d=ref::mdet(U); CHECK(ref::deg(d)==0,w+": the transformation is not unimodular"); return d[0]; }
// unique normal form of an upper row echelon matrix with rk pivots piv
static PMat ref_norm(PMat A,const VL&piv,long rk){ for(long i=0;i<rk;i++){ long j=piv[i]; u64 v=ref::inv(A.at(i,j).back()); for(long k=0;k<A.c;k++) A.at(i,k)=ref::pscale(A.at(i,k),v); for(long ii=0;ii<i;ii++){ Poly q,r; ref::pdivrem(q,r,A.at(ii,j),A.at(i,j)); if(ref::deg(q)>=0) for(long k=0;k<A.c;k++) A.at(ii,k)=ref::psub(A.at(ii,k),ref::pmul(q,A.at(i,k))); } } return A; }
static void ck_uref(const PMat&H,const VL&piv,long rk,const std::string&w){ for(long i=0;i<H.r;i++){ long j=0; while(j<H.c&&ref::deg(H.at(i,j))<0) j++; if(i<rk){ CHECK(j<H.c,w+": row "+std::to_string(i)+" is zero, below the rank returned"); CHECK(j==piv[i],w+": pivot of row "+std::to_string(i)+" is "+std::to_string(j)+", reported "+std::to_string(piv[i])); CHECK(i==0||piv[i]>piv[i-1],w+": pivots do not increase"); } else CHECK(j==H.c,w+": nonzero row beyond the rank"); } }
static long rkb(const PMat&F,long r,long c){ return r&&c?ref::mrank(ref::msub_block(F,0,0,r,c)):0; }
static const char*EN[]={"Rosser","Bradley","lexicographic","Mulders-Storjohann","Kannan-Bachem"};
static slong run_ech(int a,bool h,nmod_poly_mat_struct*M,nmod_poly_mat_struct*T,slong*pi,slong*mrp,slong*ud){ switch(a){ case 0: return h?nmod_poly_mat_hnf_ur_maxdeg_atomic(M,T,pi):nmod_poly_mat_uref_maxdeg_atomic(M,T,pi); case 1: return h?nmod_poly_mat_hnf_ur_revlex_xgcd(M,T,pi,mrp):nmod_poly_mat_uref_revlex_xgcd(M,T,pi,mrp); case 2: return h?nmod_poly_mat_hnf_ur_lex_xgcd(M,T,pi,mrp):nmod_poly_mat_uref_lex_xgcd(M,T,pi,mrp); case 3: return h?nmod_poly_mat_hnf_ur_matrixgcd_iter(M,T,pi,nullptr,ud):nmod_poly_mat_uref_matrixgcd_iter(M,T,pi,nullptr,ud); default: return nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero(M,T,pi,mrp); } }
static void echelon(Gen&g,Case&c){ PMat F=in_mat(g,c,5); long m=F.r,n=F.c,mn=std::min(m,n); int a=(int)g.draw(5); bool h=a==4||g.coin(1,2); if(a==0||a==3){} else if(m>4&&ref::mdeg(F)>3){ for(auto&p:F.a) p=ref::ptrunc(p,3); } std::string w=std::string(h?"Hermite form (":"echelon form (")+EN[a]+")"; c.note("alg",w); c.tag("alg:"+w); long rk=rkb(F,m,n); bool gen=true; if(a==3) gen=rkb(F,m,rk)==rk; c.tag(rk==mn?"full-rank":"rank-deficient");
  PMat T=gen_pmat(g,m,(long)g.draw(3),2),IT=hcat(ref::mident(m),T); bool um=(a==1||a==2||a==4)&&g.coin(2,3),uu=a==3&&g.coin(2,3); std::vector<slong> pi(mn+1,-777),mrp(m+1,-888); slong ud=g.coin(1,2)?1:-1,ud0=ud; FPM M(g,F),X(g,IT); slong got=run_ech(a,h,M,X,pi.data(),um?mrp.data():nullptr,uu?&ud:nullptr); CHECK(pi[mn]==-777,w+": pivot indices written beyond min(rows,columns)"); CHECK(mrp[m]==-888,w+": rank profile written beyond the number of rows"); PMat H=M.val(),T1=X.val(); u64 du=ck_tsf(F,H,T,T1,w);
  if(a==3&&!gen){ c.tag("non-generic"); CHECK(got<0,w+": returned "+std::to_string(got)+" although the column rank profile is not generic"); return; }
  CHECK(got==rk,w+": returned rank "+std::to_string(got)+" instead of "+std::to_string(rk)); VL piv(pi.begin(),pi.begin()+rk); ck_uref(H,piv,rk,w); PMat N=ref_norm(H,piv,rk); if(h) CHECK(ref::meq(N,H),w+": pivots not monic or entries above pivots not reduced");
  if(uu&&!h) CHECK(du==(ud==ud0?1%ref::P:ref::neg(1%ref::P))&&(ud==ud0||ud==-ud0),w+": sign of the determinant of the transformation is reported wrongly");
  if(um){ for(long i=0;i<m;i++){ long e=-1; for(long j=0;j<n;j++) if(rkb(F,i+1,j+1)-rkb(F,i,j+1)-rkb(F,i+1,j)+rkb(F,i,j)==1) e=j; CHECK(mrp[i]==e,w+": matrix rank profile at row "+std::to_string(i)+" is "+std::to_string(mrp[i])+" instead of "+std::to_string(e)); } }
  // without a transformation matrix
  FPM M2(g,F); std::vector<slong> p2(mn+1,-777); slong r2=run_ech(a,h,M2,nullptr,p2.data(),nullptr,nullptr); CHECK(r2==rk,w+" without transformation: rank "+std::to_string(r2)); PMat H2=M2.val(); VL q2(p2.begin(),p2.begin()+rk); ck_uref(H2,q2,rk,w+" without transformation"); CHECK(ref::meq(ref_norm(H2,q2,rk),N),w+": another row space when no transformation is asked for"); if(h) CHECK(ref::meq(H2,N),w+" without transformation: not the Hermite form"); }
static void weakpopov(Gen&g,Case&c){ PMat A=in_mat(g,c,6); long R=A.r,C=A.c; orientation_t o=g.coin(1,2)?ROW_LOWER:ROW_UPPER; u64 k=g.draw(4); std::string w=k==0?"weak_popov_iter":k==1?"ordered_weak_popov_iter":"weak_popov_iter_submat"; w+=std::string(" (")+oname(o)+")"; c.note("alg",w); c.tag("alg:"+w); long r0=0,c0=0,m=R,n=C; if(k>=2){ r0=R?(long)g.draw(R):0; c0=C?(long)g.draw(C):0; m=(long)g.draw(R-r0+1); n=(long)g.draw(C-c0+1); std::ostringstream q; q<<"rows "<<r0<<"+"<<m<<" columns "<<c0<<"+"<<n; c.note("sub",q.str()); }
  PMat F=ref::msub_block(A,r0,c0,m,n); VL s=gen_shift(g,n,4); for(auto&x:s) if(x<-100000||x>100000) x=0; bool ns=g.coin(1,4); if(ns) s.assign(n,0); c.note("shift",ns?"none":vstr(s)); std::vector<slong> sh(s.begin(),s.end()); PMat T=gen_pmat(g,R,(long)g.draw(3),2),IT=hcat(ref::mident(R),T); bool ut=g.coin(3,4),ud=k>=2&&g.coin(1,2),ur=g.coin(2,3); FPM M(g,A),X(g,IT); std::vector<slong> pi(m+1,-777),rrp(std::min(m,n)+1,-888); slong dt=g.coin(1,2)?1:-1,dt0=dt; long ez=k>=2&&g.coin(1,2)?1+(long)g.draw(std::max(1L,m)):m; if(k>=2) c.note("early-exit",ez); long rk=rkb(F,m,n);
  nmod_poly_mat_struct*x=ut?(nmod_poly_mat_struct*)X:nullptr; const slong*sp=ns?nullptr:sh.data(); slong*rp=ur?rrp.data():nullptr; slong got=k==0?nmod_poly_mat_weak_popov_iter(M,sp,x,pi.data(),rp,o):k==1?nmod_poly_mat_ordered_weak_popov_iter(M,sp,x,pi.data(),rp,o):_nmod_poly_mat_weak_popov_iter_submat_rowbyrow(M,sp,x,ud?&dt:nullptr,pi.data(),rp,r0,c0,m,n,ez,o);
  CHECK(pi[m]==-777,w+": pivot indices written beyond the number of rows"); CHECK(rrp.back()==-888,w+": row rank profile written beyond its length"); PMat B=M.val(); if(ut){ u64 d=ck_tsf(A,B,T,X.val(),w); if(ud) CHECK((dt==dt0||dt==-dt0)&&d==(dt==dt0?1%ref::P:ref::neg(1%ref::P)),w+": determinant of the transformation reported wrongly"); } else X.kept(w);
  for(long i=0;i<R;i++) if(i<r0||i>=r0+m) for(long j=0;j<C;j++) CHECK(ref::peq(A.at(i,j),B.at(i,j)),w+": a row outside the submatrix was modified"); if(m==0||n==0){ CHECK(got==0,w+": nonzero rank of an empty matrix"); return; }
  long exp=rk; bool early=false; VL rr; { long prev=0,z=0; for(long i=1;i<=m;i++){ long t=rkb(F,i,n); if(t>prev) rr.push_back(i-1); else z++; prev=t; if(z>=ez&&k>=2){ early=true; exp=t; break; } } } c.tag(early?"early-exit":rk==std::min(m,n)?"full-rank":"rank-deficient");
  CHECK(got==(early?-exp:exp),w+": returned "+std::to_string(got)+" instead of "+std::to_string(early?-exp:exp)); PMat S=ref::msub_block(B,r0,c0,exp,n); PMat L=tolow(S,o); VL sl=slow(s,o); CHECK(k==1?f_ord(L,sl):f_weak(L,sl),w+": the nonzero rows are not in "+(k==1?"ordered ":"")+"weak Popov form"); VL i0,e0; rpiv(L,sl,i0,e0); CHECK(pivlow(VL(pi.begin(),pi.begin()+exp),n,o)==i0,w+": reported pivots are not those of the output"); if(!early) for(long i=exp;i<m;i++) for(long j=0;j<n;j++) CHECK(ref::deg(B.at(r0+i,c0+j))<0,w+": a row beyond the rank is not zero"); if(ur) CHECK(VL(rrp.begin(),rrp.begin()+exp)==rr,w+": row rank profile "+vstr(VL(rrp.begin(),rrp.begin()+exp))+" instead of "+vstr(rr)); if(!ut&&!early){ PMat AR=ref::msub_block(A,r0,0,m,C),BR=ref::msub_block(B,r0,0,m,C); CHECK(rkb(BR,m,C)==rkb(AR,m,C),w+": rank changed"); PMat st(2*m,C); for(long i=0;i<m;i++) for(long j=0;j<C;j++){ st.at(i,j)=AR.at(i,j); st.at(m+i,j)=BR.at(i,j); } CHECK(rkb(st,2*m,C)==rkb(AR,m,C),w+": row space changed"); } }
static void dets(Gen&g,Case&c){ PMat A=in_mat(g,c,6); long n=std::min(A.r,A.c); A=ref::msub_block(A,0,0,n,n); c.note("n",n); bool uni=g.coin(1,3); if(uni){ Rng q(g.seed32()); A=ref::mident(n); int t=(int)g.draw(6); for(int z=0;z<t&&n>1;z++){ long i=(long)q.below(n),k=(long)q.below(n); if(i==k) continue; Poly l; long e=(long)q.below(4); for(long u=0;u<e;u++) l.push_back(q()%ref::P); ref::norm(l); for(long j=0;j<n;j++) A.at(i,j)=ref::padd(A.at(i,j),ref::pmul(l,A.at(k,j))); } if(n>1&&g.coin(1,2)) for(long j=0;j<n;j++) std::swap(A.at(0,j),A.at(n-1,j)); if(n&&g.coin(1,3)){ Poly l{q()%ref::P,1%ref::P}; for(long j=0;j<n;j++) A.at(0,j)=ref::pmul(l,A.at(0,j)); } } Poly d=ref::mdet(A); c.tag(ref::deg(d)<0?"singular":ref::deg(d)==0?"unimodular":"nonsingular"); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1);
  { FPM M(g,A); FP p(gen_pmat(g,1,1,4).at(0,0)); nmod_poly_mat_det_iter(p,M); Poly e=p.val(); CHECK(ref::peq(e,d),"det_iter: "+ref::pstr(e)+" instead of "+ref::pstr(d)); M.margin("det_iter"); }
  { FPM M(g,A); bool want=ref::deg(d)==0; CHECK((nmod_poly_mat_is_unimodular(M)!=0)==want,std::string("is_unimodular is wrong for a matrix that is ")+(want?"":"not ")+"unimodular"); FR st(g); int r=nmod_poly_mat_is_unimodular_randomized(M,st); if(want) CHECK(r,"the randomised unimodularity test rejects a unimodular matrix"); else if(ref::P>(1ULL<<40)) CHECK(!r,"the randomised unimodularity test accepts a matrix that is not unimodular"); M.kept("unimodularity test"); if(n){ bool wide=g.coin(1,2); Rng q(g.seed32()); PMat N(wide?n:n+1,wide?n+1:n); for(auto&e:N.a) if(q.below(4)) e={q()%ref::P}; for(auto&e:N.a) ref::norm(e); FPM Q(g,N); CHECK(!nmod_poly_mat_is_unimodular(Q)&&!nmod_poly_mat_is_unimodular_randomized(Q,st),"a rectangular matrix is said to be unimodular"); } } }
static void series(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long n=1+g.size(0,4),m=1+g.size(0,3); long deg=(long)g.draw(6); PMat A=gen_pmat(g,n,n,deg); Rng q(g.seed32()); if(g.coin(4,5)) for(int t=0;t<20&&ref::crank(ref::mcoef(A,0))<n;t++) for(auto&p:A.a){ if(p.empty()) p.push_back(0); p[0]=q()%ref::P; ref::norm(p); } bool inv=ref::crank(ref::mcoef(A,0))==n; long ord=1+(long)g.draw(g.coin(1,4)?40:8),sig=(long)g.draw(g.coin(1,4)?60:14); c.note("n",n); c.note("degree",ref::mdeg(A)); c.note("order",ord); c.tag(inv?"invertible":"singular at 0"); NONTRIVIAL(c,n>=2&&ref::mdeg(A)>=1&&ord>=2&&inv);
  { FPM M(g,A),S(g,gen_pmat(g,n,n,3)); slong r=nmod_poly_mat_inv_trunc(S,M,ord); CHECK((r!=0)==inv,std::string("inv_trunc reports ")+std::to_string(r)+" for a matrix that is "+(inv?"":"not ")+"invertible at 0"); M.kept("inv_trunc"); if(inv){ PMat V=S.val(); CHECK(ref::mdeg(V)<ord,"inv_trunc: result not truncated"); CHECK(ref::meq(ref::mtrunc(ref::mmul(A,V),ord),ref::mident(n)),"inv_trunc: result times the matrix is not the identity modulo x^order"); } else S.margin("inv_trunc"); }
  { PMat B=gen_pmat(g,n,m,(long)g.draw(8)); c.note("sigma",sig); FPM M(g,A),Y(g,B),X(g,gen_pmat(g,n,m,3)); bool al=g.coin(1,5); slong r=al?nmod_poly_mat_dixon(Y,M,Y,ord,sig):nmod_poly_mat_dixon(X,M,Y,ord,sig); CHECK((r!=0)==inv,"dixon: wrong success flag"); M.kept("dixon"); if(!al) Y.kept("dixon"); if(inv){ PMat V=al?Y.val():X.val(); CHECK(ref::meq(ref::mtrunc(ref::mmul(A,V),sig),ref::mtrunc(B,sig)),"dixon: A*X differs from B modulo x^sigma"); } } }
std::vector<Sub> SUBS={{"echelon",echelon,90000,1500000,500},{"weakpopov",weakpopov,150000,2500000,500},{"dets",dets,100000,1500000,500},{"series",series,60000,1000000,500}};
