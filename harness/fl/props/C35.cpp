#include "../orient.h"
const char*PROP_RULE="a case is non-trivial when both factors (or the matrix handled) have at least two entries and positive degree; for the matrix polynomial histories, when at least three operations change a value";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which passes all of flint-extras' own tests","products whose schoolbook cost exceeds 3e5 operations are compared through random projections on both sides (2 to 24 of them according to p), smaller ones coefficient by coefficient","each variant is called within the field size its macro or documentation asks for"};
std::vector<Known> KNOWN={};
// a matrix of length exactly len, with a free choice of shape
static PMat gen_fac(Gen&g,long r,long c,long len,std::string&st){ if(len<=0||r*c==0){ st+="zero "; return PMat(r,c); } PMat A; if(g.coin(1,6)){ A=full_pmat(g,r,c,len); st+="full "; } else { std::string t; A=gen_pmat(g,r,c,len,&t); st+=t+" "; } if(g.coin(3,4)){ Poly&p=A.a[g.draw(A.a.size())]; p.resize(len,0); if(p[len-1]==0) p[len-1]=1; } return A; }
static long pick_len(Gen&g,bool big){ if(big) return 2+(long)g.draw(4); switch(g.draw(8)){ case 0: return (long)g.draw(3); case 1: return 1+(long)g.draw(60); default: return 1+(long)g.draw(14); } }
static void pick_dims(Gen&g,long&r,long&k,long&c,bool&big){ big=false; switch(g.draw(10)){ case 0: r=(long)g.draw(4); k=(long)g.draw(4); c=(long)g.draw(4); break; case 1: case 2: r=8+(long)g.draw(7); k=8+(long)g.draw(7); c=8+(long)g.draw(7); big=true; break; case 3: r=1+(long)g.draw(14); k=1+(long)g.draw(6); c=1+(long)g.draw(3); break; default: r=1+(long)g.draw(6); k=1+(long)g.draw(6); c=1+(long)g.draw(6); } }
static void aliasfix(Gen&g,int al,long&r,long&k,long&c){ (void)g; if(al==1) c=k; if(al==2) r=k; if(al==3){ r=k; c=k; } }
// moduli on either side of the limits up to which evaluation schemes apply
static void edge_field(Gen&g,Case&c,Field&f,long la,long lb){ if(g.coin(1,6)){ u64 t=(u64)g.pick({1L,2L,10L})*(u64)std::max(1L,la+lb-1); f.p=g.coin(1,2)||t<3?nextprime(std::max<u64>(2,t)):prevprime(t-1); set_field(f); c.tag("edge-modulus"); } note_field(c,f); }
static void multiply(Gen&g,Case&c){ Field f=gen_field(g); long r,k,cc; bool big; pick_dims(g,r,k,cc,big); int al=(int)g.draw(5); aliasfix(g,al,r,k,cc); long la=pick_len(g,big),lb=pick_len(g,big); bool huge=g.coin(1,300); if(huge){ r=k=cc=13; la=151+(long)g.draw(4); lb=150; al=0; } edge_field(g,c,f,la,lb); std::string st; PMat A=gen_fac(g,r,k,la,st),B=al==3?A:gen_fac(g,k,cc,lb,st); la=ref::mdeg(A)+1; lb=ref::mdeg(B)+1; long len=la&&lb?la+lb-1:0;
  std::ostringstream o; o<<r<<"x"<<k<<"x"<<cc<<" len "<<la<<","<<lb; c.note("shape",o.str()); c.note("style",st); c.note("alias",std::to_string(al));
  std::vector<int> V={0,0}; if(ref::P>=(u64)10*len) V.push_back(1); if(ref::P>=(u64)len) V.push_back(2); if(ref::P>=2*(u64)len) V.push_back(3); if(ref::P!=2) V.push_back(4); if(ref::P>=(u64)10*len&&len>0) V.push_back(5); int v=huge?0:V[g.draw(V.size())]; static const char*N[6]={"multiply","geometric","vandermonde1","vandermonde2","waksman","geometric_precomp"}; std::string w=std::string("product (")+N[v]+")"; c.note("variant",N[v]); c.tag(std::string("variant:")+N[v]); if(huge) c.tag("huge"); if(big) c.tag("dims>=8"); NONTRIVIAL(c,A.a.size()>=2&&B.a.size()>=2&&la>=2&&lb>=2);
  FPM fa(g,A),fb(g,B),fc(g,al==0||al==4?gen_pmat(g,r,cc,3):PMat(0,0)); nmod_poly_mat_struct*pa=fa,*pb=al==3?(nmod_poly_mat_struct*)fa:(nmod_poly_mat_struct*)fb,*pc=al==1?pa:al==2?pb:al==3?pa:(nmod_poly_mat_struct*)fc;
  switch(v){ case 0: nmod_poly_mat_multiply(pc,pa,pb); break; case 1: nmod_poly_mat_mul_geometric(pc,pa,pb); break; case 2: nmod_poly_mat_mul_vandermonde1(pc,pa,pb); break; case 3: nmod_poly_mat_mul_vandermonde2(pc,pa,pb); break; case 4: nmod_poly_mat_mul_waksman(pc,pa,pb); break;
   default: { nmod_geometric_progression_t G; u64 w0=nmod_find_root(2*len,MOD()); CHECK(w0,"no root found"); long ex=(long)g.draw(3); if(ref::P<(u64)10*(len+ex)) ex=0; w0=nmod_find_root(2*(len+ex),MOD()); _nmod_geometric_progression_init_function(G,w0,len+ex,MOD(),3); _nmod_poly_mat_mul_geometric_precomp(pc,pa,la,pb,lb,G); nmod_geometric_progression_clear(G); } }
  ck_prod(g,A,B,get(pc),w); fa.margin(w); fb.margin(w); fc.margin(w); if(al!=1&&al!=3) fa.kept(w); if(al!=2&&al!=3) fb.kept(w); }
static void mulmid(Gen&g,Case&c){ Field f=gen_field(g); long r,k,cc; bool big; pick_dims(g,r,k,cc,big); int al=(int)g.draw(5); aliasfix(g,al,r,k,cc); long la=pick_len(g,big),lb=pick_len(g,big); if(big){ la+=g.draw(6); lb+=g.draw(6); } edge_field(g,c,f,la,lb); std::string st; PMat A=gen_fac(g,r,k,la,st),B=al==3?A:gen_fac(g,k,cc,lb,st); la=ref::mdeg(A)+1; lb=ref::mdeg(B)+1; long len=la&&lb?la+lb-1:0; long nlo=(long)g.draw(len+3),nhi=(long)g.draw(len+4); if(nhi<nlo&&g.coin(3,4)) std::swap(nhi,nlo);
  std::ostringstream o; o<<r<<"x"<<k<<"x"<<cc<<" len "<<la<<","<<lb<<" ["<<nlo<<","<<nhi<<")"; c.note("shape",o.str()); c.note("style",st); c.note("alias",std::to_string(al));
  std::vector<int> V={0,0,1,2}; bool geo=ref::P>=(u64)10*std::max(nhi,1L)&&nlo<nhi&&(la<=nlo+1||lb<=nlo+1); if(geo){ V.push_back(3); V.push_back(4); } int v=V[g.draw(V.size())]; static const char*N[5]={"mulmid","_mulmid","naive","geometric","geometric_precomp"}; std::string w=std::string("middle product (")+N[v]+")"; c.note("variant",N[v]); c.tag(std::string("variant:")+N[v]); NONTRIVIAL(c,A.a.size()>=2&&B.a.size()>=2&&la>=2&&lb>=2&&nlo<nhi);
  long sa=la+(v>=1?(long)g.draw(2):0),sb=lb+(v>=1?(long)g.draw(2):0); if(v>=3&&!(sa<=nlo+1||sb<=nlo+1)){ sa=la; sb=lb; }
  FPM fa(g,A),fb(g,B),fc(g,al==0||al==4?gen_pmat(g,r,cc,3):PMat(0,0)); nmod_poly_mat_struct*pa=fa,*pb=al==3?(nmod_poly_mat_struct*)fa:(nmod_poly_mat_struct*)fb,*pc=al==1?pa:al==2?pb:al==3?pa:(nmod_poly_mat_struct*)fc;
  switch(v){ case 0: nmod_poly_mat_mulmid(pc,pa,pb,nlo,nhi); break; case 1: _nmod_poly_mat_mulmid(pc,pa,sa,pb,sb,nlo,nhi); break; case 2: _nmod_poly_mat_mulmid_naive(pc,pa,sa,pb,sb,nlo,nhi); break; case 3: _nmod_poly_mat_mulmid_geometric(pc,pa,sa,pb,sb,nlo,nhi); break;
   default: { nmod_geometric_progression_t G; u64 w0=nmod_find_root(2*nhi,MOD()); CHECK(w0,"no root found"); _nmod_geometric_progression_init_function(G,w0,nhi,MOD(),3); _nmod_poly_mat_mulmid_geometric_precomp(pc,pa,sa,pb,sb,nlo,nhi,G); nmod_geometric_progression_clear(G); } }
  PMat got=get(pc); if((double)r*k*cc*la*lb<4e6){ PMat P=ref::mmul(A,B); ckm(got,nlo<nhi?ref::mslice(P,nlo,nhi-nlo):PMat(r,cc),w); }
  fa.margin(w); fb.margin(w); fc.margin(w); if(al!=1&&al!=3) fa.kept(w); if(al!=2&&al!=3) fb.kept(w); }
static std::vector<slong> gen_perm(Gen&g,long n){ std::vector<slong> p(n); for(long i=0;i<n;i++) p[i]=i; Rng q(g.seed32()); if(g.coin(5,6)) for(long i=0;i<n;i++) std::swap(p[i],p[i+q.below(n-i)]); return p; }
static PMat rperm(const PMat&A,const std::vector<slong>&p){ PMat B(A.r,A.c); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) B.at(i,j)=A.at(p[i],j); return B; }
// a history of row and column operations on one polynomial matrix (possibly a window), with a vector carried along
static void rowops(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=(long)g.draw(6),k=(long)g.draw(6); PMat A=gen_pmat(g,r,k,4); FPM M(g,A); std::vector<slong> rv(r+1),cv(k+1); Rng q(g.seed32()); for(auto&x:rv) x=(long)q.below(7)-3; for(auto&x:cv) x=(long)q.below(7)-3; c.note("shape",std::to_string(r)+"x"+std::to_string(k)); int ops=1+(int)g.draw(8); NONTRIVIAL(c,r*k>=2&&ops>=2); c.note("ops",std::to_string(ops));
  auto tr=[&](PMat&X){ X=ref::mtr(X); };
  for(int t=0;t<ops;t++){ u64 op=g.draw(12); bool nul=g.coin(1,4); std::string w; std::vector<slong> r0=rv,c0=cv;
    std::vector<slong> p; bool isrowop=true; 
    if(op<=2){ if(!r) continue; w="swap rows"; long a=(long)g.draw(r),b=(long)g.draw(r); p.resize(r); for(long x=0;x<r;x++) p[x]=x; std::swap(p[a],p[b]); nmod_poly_mat_swap_rows(M,nul?nullptr:rv.data(),a,b); }
    else if(op==3){ w="invert rows"; p.resize(r); for(long x=0;x<r;x++) p[x]=r-1-x; nmod_poly_mat_invert_rows(M,nul?nullptr:rv.data()); }
    else if(op==4){ w="permute rows"; p=gen_perm(g,r); nmod_poly_mat_permute_rows(M,p.data(),nul?nullptr:rv.data()); }
    else if(op==5||op==6){ long n=op==5?r:k; long m=(long)g.draw(n+1); std::vector<slong>&vv=op==5?rv:cv; w=op==5?"sort rows by a vector":"sort columns by a vector"; std::vector<slong> pe(n+1,-777); p.resize(n); for(long x=0;x<n;x++) p[x]=x; std::stable_sort(p.begin(),p.begin()+m,[&](slong a,slong b){ return vv[a]<vv[b]; }); std::vector<slong> ev=vv; for(long x=0;x<m;x++) ev[x]=vv[p[x]]; if(op==5) _nmod_poly_mat_permute_rows_by_sorting_vec(M,m,vv.data(),pe.data()); else _nmod_poly_mat_permute_columns_by_sorting_vec(M,m,vv.data(),pe.data()); CHECK(pe[n]==-777,w+": permutation written beyond its length"); pe.resize(n); CHECK(pe==p,w+": wrong permutation"); CHECK(vv==ev,w+": vector not sorted along"); if(op==6){ tr(A); A=rperm(A,p); tr(A); } else A=rperm(A,p); ckm(M.val(),A,w); continue; }
    else { isrowop=false; if(op==7||op==8){ if(!k) continue; w="swap columns"; long a=(long)g.draw(k),b=(long)g.draw(k); p.resize(k); for(long x=0;x<k;x++) p[x]=x; std::swap(p[a],p[b]); nmod_poly_mat_swap_columns(M,nul?nullptr:cv.data(),a,b); } else if(op==9){ w="invert columns"; p.resize(k); for(long x=0;x<k;x++) p[x]=k-1-x; nmod_poly_mat_invert_columns(M,nul?nullptr:cv.data()); } else { w="permute columns"; p=gen_perm(g,k); nmod_poly_mat_permute_columns(M,p.data(),nul?nullptr:cv.data()); } }
    if(isrowop) A=rperm(A,p); else { tr(A); A=rperm(A,p); tr(A); }
    std::vector<slong>&v0=isrowop?r0:c0,&v1=isrowop?rv:cv; std::vector<slong> e=v0; if(!nul) for(size_t x=0;x<p.size();x++) e[x]=v0[p[x]]; CHECK(v1==e,w+": attached vector "+vstr(VL(v1.begin(),v1.end()))+" instead of "+vstr(VL(e.begin(),e.end()))); ckm(M.val(),A,w); }
  ckm(M.val(),A,"matrix after the row and column operations"); }
static void rotations(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+(long)g.draw(6),k=(long)g.draw(5); PMat A=gen_pmat(g,r,k,4); FPM M(g,A); std::vector<slong> v(r+1); Rng q(g.seed32()); for(auto&x:v) x=(long)q.below(99); long j=(long)g.draw(r),i=(long)g.draw(j+1); bool up=g.coin(1,2),nul=g.coin(1,4); c.note("op",std::string(up?"up ":"down ")+std::to_string(i)+".."+std::to_string(j)); NONTRIVIAL(c,j>i&&k>0); std::vector<slong> p(r),e=v; for(long x=0;x<r;x++) p[x]=x; if(up){ p[j]=i; for(long x=i;x<j;x++) p[x]=x+1; } else { p[i]=j; for(long x=i+1;x<=j;x++) p[x]=x-1; } if(!nul) for(long x=0;x<r;x++) e[x]=v[p[x]]; if(up) _nmod_poly_mat_rotate_rows_upward(M,nul?nullptr:v.data(),i,j); else _nmod_poly_mat_rotate_rows_downward(M,nul?nullptr:v.data(),i,j); CHECK(v==e,"row rotation: attached vector"); ckm(M.val(),rperm(A,p),"row rotation"); }
// matrix polynomials (polynomials with matrix coefficients): model based histories
struct MP { nmod_mat_poly_t m; MP(long r,long c,int how,long al){ nmod_t md=MOD(); switch(how){ case 0: nmod_mat_poly_init(m,r,c,ref::P); break; case 1: nmod_mat_poly_init_preinv(m,r,c,ref::P,md.ninv); break; case 2: nmod_mat_poly_init2(m,r,c,ref::P,al); break; case 3: nmod_mat_poly_init2_preinv(m,r,c,ref::P,md.ninv,al); break; default: nmod_mat_poly_init_mod(m,r,c,md); } } MP(const MP&)=delete; ~MP(){ nmod_mat_poly_clear(m); } operator nmod_mat_poly_struct*(){ return m; }
  PMat val(bool normal=true)const{ CHECK(m->length>=0&&m->length<=m->alloc,"matrix polynomial with inconsistent length"); CHECK(m->mod.n==ref::P,"modulus of a matrix polynomial changed"); { nmod_t e=MOD(); CHECK(m->mod.ninv==e.ninv&&m->mod.norm==e.norm,"matrix polynomial: the precomputed data of the modulus is wrong"); } PMat A(m->r,m->c); for(long k=0;k<m->length;k++){ CMat C=get(m->coeffs+k); CHECK(C.r==m->r&&C.c==m->c,"coefficient of a matrix polynomial has wrong dimensions"); bool nz=false; for(long i=0;i<m->r;i++) for(long j=0;j<m->c;j++){ A.at(i,j).push_back(C.at(i,j)); nz|=C.at(i,j)!=0; } if(normal&&k==m->length-1) CHECK(nz,"matrix polynomial with zero leading coefficient"); } for(auto&p:A.a) ref::norm(p); return A; } };
static void matpoly(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+(long)g.draw(4),k=1+(long)g.draw(4); c.note("shape",std::to_string(r)+"x"+std::to_string(k)); MP a(r,k,(int)g.draw(5),(long)g.draw(4)),b(r,k,(int)g.draw(5),(long)g.draw(4)); MP*P[2]={&a,&b}; PMat X[2]={PMat(r,k),PMat(r,k)}; FR st(g); int ops=1+(int)g.draw(14),ch=0; std::string log;
  auto chk=[&](int i,const std::string&w){ ckm(P[i]->val(),X[i],w); CHECK((nmod_mat_poly_is_zero(P[i]->m))==(ref::mdeg(X[i])<0),w+": is_zero"); CHECK(nmod_mat_poly_length(P[i]->m)==ref::mdeg(X[i])+1,w+": length"); CHECK(nmod_mat_poly_degree(P[i]->m)==ref::mdeg(X[i]),w+": degree"); CHECK(nmod_mat_poly_nrows(P[i]->m)==r&&nmod_mat_poly_ncols(P[i]->m)==k,w+": dimensions"); bool one=ref::mdeg(X[i])==0; for(long u=0;u<r&&one;u++) for(long v=0;v<k;v++) if(ref::coef(X[i].at(u,v),0)!=(u==v?1%ref::P:0)) one=false; CHECK((nmod_mat_poly_is_one(*P[i])!=0)==one,w+": is_one"); if(ref::mdeg(X[i])>=0) CHECK((nmod_mat_poly_is_constant(*P[i])!=0)==(ref::mdeg(X[i])==0),w+": is_constant on degree "+std::to_string(ref::mdeg(X[i]))); };
  for(int t=0;t<ops;t++){ int i=(int)g.draw(2),o=1-i; MP&m=*P[i]; PMat&x=X[i]; u64 op=g.draw(15); std::string w; 
    switch(op){
     case 0: { long n=(long)g.draw(6); nmod_mat_poly_rand(m,st,n); w="rand"; x=m.val(); CHECK(ref::mdeg(x)<n,"random matrix polynomial longer than asked"); ch++; break; }
     case 1: { long n=(long)g.draw(6); nmod_mat_poly_randtest(m,st,n); w="randtest"; x=m.val(); CHECK(ref::mdeg(x)<n,"random matrix polynomial longer than asked"); ch++; break; }
     case 2: case 3: { PMat S=gen_pmat(g,r,k,(long)g.draw(6)); FPM fs(g,S); long n=(long)g.draw(8); if(g.coin(1,2)){ nmod_mat_poly_set_from_poly_mat(m,fs); x=S; } else { nmod_mat_poly_set_trunc_from_poly_mat(m,fs,n); x=ref::mtrunc(S,n); } w="set from a polynomial matrix"; fs.kept(w); ch++; break; }
     case 4: { CMat C=gen_cmat(g,r,k); FM fm(g,C); nmod_mat_poly_set_from_nmod_mat(m,fm); x=ref::mconst(C); w="set from a constant matrix"; fm.kept(w); ch++; break; }
     case 5: nmod_mat_poly_zero(m); x=PMat(r,k); w="zero"; break;
     case 6: nmod_mat_poly_one(m); x=PMat(r,k); for(long u=0;u<std::min(r,k);u++) x.at(u,u)=Poly{1%ref::P}; w="one"; ch++; break;
     case 7: nmod_mat_poly_set(m,*P[o]); x=X[o]; w="set"; break;
     case 8: { long n=(long)g.draw(7); nmod_mat_poly_truncate(m,n); x=ref::mtrunc(x,n); w="truncate"; break; }
     case 9: { long n=(long)g.draw(5); bool al=g.coin(1,2); nmod_mat_poly_shift_left(m,al?m:*P[o],n); PMat s=al?x:X[o]; x=ref::mmap(s,[&](const Poly&p){ return ref::pshl(p,n); }); w=al?"shift left in place":"shift left"; ch++; break; }
     case 10: { long n=(long)g.draw(8); nmod_mat_poly_realloc(m,n); x=ref::mtrunc(x,n); w="realloc"; CHECK(m.m->alloc==n,"realloc: allocated length"); break; }
     case 11: { long n=(long)g.draw(12),before=m.m->alloc; nmod_mat_poly_fit_length(m,n); w="fit length"; CHECK(m.m->alloc>=n&&m.m->alloc>=before,"fit_length: not enough room"); break; }
     case 12: { auto p=gen_perm(g,r); std::vector<slong> s=gen_perm(g,r),s0=s; bool nul=g.coin(1,3); nmod_mat_poly_permute_rows(m,p.data(),nul?nullptr:s.data()); x=rperm(x,p); w="permute rows"; if(!nul) for(long u=0;u<r;u++) CHECK(s[u]==s0[p[u]],"permute rows: stored permutation"); ch++; break; }
     case 13: { if(m.m->length==0) continue; long d=(long)g.draw(m.m->length),u=(long)g.draw(r),v=(long)g.draw(k); u64 y=gen_elem(g); if(d==m.m->length-1&&y==0) y=1%ref::P; nmod_mat_poly_set_entry(m,d,u,v,y); Poly&p=x.at(u,v); if((long)p.size()<=d) p.resize(d+1,0); p[d]=y; ref::norm(p); w="set entry"; CHECK(nmod_mat_poly_get_entry(m,d,u,v)==y&&*nmod_mat_poly_entry_ptr(m,d,u,v)==y,"get entry"); ch++; break; }
     default: { u64 pt=gen_elem(g); FM ev(g,gen_cmat(g,r,k)); nmod_mat_poly_evaluate_nmod(ev,m,pt); ckc(ev.val(),ref::meval(x,pt),"evaluation at "+std::to_string(pt)); w="evaluate"; long d=(long)g.draw(ref::mdeg(x)+4); FM co(g,gen_cmat(g,r,k)); nmod_mat_poly_get_coeff(co,m,d); ckc(co.val(),ref::mcoef(x,d),"get_coeff of degree "+std::to_string(d)); nmod_mat_struct*pc=nmod_mat_poly_coeff(m.m,d),*pl=nmod_mat_poly_lead(m.m); CHECK((pc==NULL)==(d>ref::mdeg(x))&&(pl==NULL)==(ref::mdeg(x)<0),"coefficient reference: null exactly beyond the degree"); if(pc) ckc(get(pc),ref::mcoef(x,d),"coefficient reference"); if(pl) ckc(get(pl),ref::mcoef(x,ref::mdeg(x)),"leading coefficient reference"); } }
    log+=w+"; "; c.note("ops",log); chk(i,w); chk(o,"the other matrix polynomial after "+w); }
  NONTRIVIAL(c,ch>=3);
  // conversions and coefficients of products
  { FPM out(g,gen_pmat(g,r,k,5)); long n=(long)g.draw(8); if(g.coin(1,2)){ nmod_poly_mat_set_from_mat_poly(out,a); ckm(out.val(),X[0],"polynomial matrix set from a matrix polynomial"); } else { nmod_poly_mat_set_trunc_from_mat_poly(out,a,n); ckm(out.val(),ref::mtrunc(X[0],n),"polynomial matrix set from a truncated matrix polynomial"); } }
  { long k2=1+(long)g.draw(3); PMat Y=gen_pmat(g,k,k2,(long)g.draw(5)); MP y(k,k2,0,0); FPM fy(g,Y); nmod_mat_poly_set_from_poly_mat(y,fy); long d=(long)g.draw(std::max(1L,ref::mdeg(X[0])+ref::mdeg(Y)+4)); FM co(g,gen_cmat(g,r,k2)); nmod_mat_poly_mul_coeff(co,a,y,d); PMat pr=ref::mmul(X[0],Y); ckc(co.val(),ref::mcoef(pr,d),"coefficient "+std::to_string(d)+" of a product"); chk(0,"operand of mul_coeff"); }
  { CMat C=gen_cmat(g,r,k); FM fm(g,C); nmod_mat_poly_t z; nmod_mat_poly_init_set_from_nmod_mat(z,fm); PMat got(r,k); for(long u=0;u<r;u++) for(long v=0;v<k;v++) if(z->length) got.at(u,v)=Poly{nmod_mat_poly_entry(z,0,u,v)}; for(auto&p:got.a) ref::norm(p); bool nz=false; for(u64 e:C.a) nz|=e!=0; CHECK(z->length==(nz?1:0)&&z->r==r&&z->c==k&&z->mod.n==ref::P,"init_set from a constant matrix: shape"); ckm(got,ref::mconst(C),"init_set from a constant matrix"); nmod_mat_poly_clear(z); } }
static void random(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); FR st(g); u64 k=g.draw(6); c.note("kind",std::to_string(k)); c.tag("rand:"+std::to_string(k)); long r=(long)g.draw(5),n=(long)g.draw(5);
  if(k<4){ NONTRIVIAL(c,r*n>=2); FPM M(g,gen_pmat(g,r,n,4)); std::vector<slong> L(std::max(r,n)+1); Rng q(g.seed32()); for(auto&x:L) x=(long)q.below(6); 
    if(k==0){ nmod_poly_mat_rand(M,st,L[0]); PMat A=M.val(); for(auto&p:A.a) CHECK((long)p.size()<=L[0],"random matrix: an entry is too long"); }
    if(k==1){ nmod_poly_mat_rand_row_degree(M,st,L.data()); PMat A=M.val(); for(long i=0;i<r;i++) for(long j=0;j<n;j++) CHECK((long)A.at(i,j).size()<=L[i],"random matrix: an entry exceeds the length of its row"); }
    if(k==2){ nmod_poly_mat_rand_column_degree(M,st,L.data()); PMat A=M.val(); for(long i=0;i<r;i++) for(long j=0;j<n;j++) CHECK((long)A.at(i,j).size()<=L[j],"random matrix: an entry exceeds the length of its column"); }
    if(k==3){ fmpz_mat_t D; fmpz_mat_init(D,r,n); for(long i=0;i<r;i++) for(long j=0;j<n;j++) *fmpz_mat_entry(D,i,j)=(long)q.below(6); nmod_poly_mat_rand_degree_matrix(M,st,D); PMat A=M.val(); for(long i=0;i<r;i++) for(long j=0;j<n;j++) CHECK((long)A.at(i,j).size()<=*fmpz_mat_entry(D,i,j),"random matrix: an entry exceeds its length"); fmpz_mat_clear(D); }
    FP p(gen_poly(g,5)); long l=(long)g.draw(8); nmod_poly_rand(p,st,l); CHECK((long)p.val().size()<=l,"random polynomial too long"); nmod_poly_rand_monic(p,st,l+1); Poly v=p.val(); CHECK((long)v.size()==l+1&&v[l]==1%ref::P,"random monic polynomial"); return; }
  // random Popov forms with a prescribed pivot profile
  r=1+(long)g.draw(5); n=r+(long)g.draw(3); NONTRIVIAL(c,r>=2); orientation_t o=k==4?ROW_LOWER:COL_UPPER; VL s=gen_shift(g,n,4); std::vector<long> cols(n); for(long i=0;i<n;i++) cols[i]=i; Rng q(g.seed32()); for(long i=0;i<n;i++) std::swap(cols[i],cols[i+q.below(n-i)]); cols.resize(r); std::sort(cols.begin(),cols.end()); VL pd(r); for(auto&x:pd) x=(long)q.below(5); bool ns=g.coin(1,4); if(ns) s.assign(n,0); bool np=r==n&&g.coin(1,2); PMat Z(r,n); Z=ref::mmap(gen_pmat(g,r,n,3),[](const Poly&p){ return p; }); FPM M(g,isrow(o)?Z:ref::mtr(Z)); nmod_poly_mat_rand_popov(M,st,np?nullptr:cols.data(),pd.data(),ns?nullptr:s.data(),o); PMat L=tolow(M.val(),o); VL wi,wd; rpiv(L,s,wi,wd); CHECK(wi==VL(cols.begin(),cols.end())&&wd==pd,"random Popov form: pivot profile "+vstr(wi)+vstr(wd)+" instead of "+vstr(VL(cols.begin(),cols.end()))+vstr(pd)); CHECK(f_popov(L,s),"random Popov form is not in Popov form"); }
std::vector<Sub> SUBS={{"multiply",multiply,12000,200000,500},{"mulmid",mulmid,12000,200000,500},{"rowops",rowops,20000,300000,400},{"rotations",rotations,10000,150000,400},{"matpoly",matpoly,20000,300000,500},{"random",random,20000,300000,400}};
