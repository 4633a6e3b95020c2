#include "pm.h"
#include "../pmlflint.h"
using ref::CMat; using ref::Vec;
const char*PROP_RULE="a case is non-trivial when the vectors have at least 3 entries that are not all 0 (dot products), the matrices at least two rows and two columns (products, factorizations, nullspaces, rotations, random forms) and the modulus is at least 3";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which passes all of flint-extras' own tests","dot-product routines get inputs within their documented bounds: 32-bit ones moduli up to 1515531528, _nmod_vec_2dot2_split and nmod_mat_mul_2dot moduli below 2^30, the single- and double-limb multi versions sums that fit 1 and 2 limbs","matrix factorizations and nullspaces are over prime moduli","routines announced as drafts (split26, ifma) are used within 52 bits and 1000 terms, the 32-bit ifma ones at lengths that are multiples of 32"};
std::vector<Known> KNOWN={};
typedef unsigned __int128 u128_t;
// exact 192-bit sum of products, and its residue
struct Acc { u64 l[3]={0,0,0}; void add(u64 a,u64 b){ u128_t p=(u128_t)a*b; u128_t s=(u128_t)l[0]+(u64)p; l[0]=(u64)s; s=(u128_t)l[1]+(u64)(p>>64)+(u64)(s>>64); l[1]=(u64)s; l[2]+=(u64)(s>>64); } u64 mod(u64 n)const{ u128_t r=0; for(int i=2;i>=0;i--) r=((r<<64)|l[i])%n; return (u64)r; } };
// entries of at most b bits
static std::vector<u64> ents(Gen&g,long n,int b,u64 cap=0){ std::vector<u64> v(n); u64 mx=cap?cap:b==0?0:b==64?~0ULL:(1ULL<<b)-1; u64 st=g.draw(7); Rng q(g.seed32()); for(auto&x:v) switch(st){ case 0: x=mx; break; case 1: case 2: case 3: x=mx==~0ULL?q():q()%(mx+1); break; case 4: x=q.below(4)?mx:mx-(mx?q.below(std::min<u64>(mx,3)+1):0); break; case 5: x=q.below(3)?0:(mx==~0ULL?q():q()%(mx+1)); break; default: x=q.below(2)?mx:(mx?1:0); } if(n&&g.coin(1,12)) for(auto&x:v) x=0; return v; }
// heap block of exactly n elements at an arbitrary offset, with guard elements behind it when writable
template<class T> struct Blk { T*b; long n,o; T pat; Blk(Gen&g,long n_):n(n_),o((long)g.draw(3)),pat((T)0xA5A5A5A5A5A5A5A5ULL){ b=(T*)malloc(sizeof(T)*(o+n+1)); for(long i=0;i<o+n+1;i++) b[i]=pat; } Blk(const Blk&)=delete; ~Blk(){ free(b); } T*p(){ return b+o; } void ok(const std::string&w)const{ for(long i=0;i<o;i++) CHECK(b[i]==pat,w+": wrote before the output"); CHECK(b[o+n]==pat,w+": wrote beyond the output"); } };
template<class T> struct In { T*b; long n,o; std::vector<u64> v; In(Gen&g,const std::vector<u64>&w):n((long)w.size()),o((long)g.draw(3)),v(w){ b=(T*)malloc(sizeof(T)*std::max(1L,o+n)); for(long i=0;i<n;i++) b[o+i]=(T)w[i]; } In(const In&)=delete; ~In(){ free(b); } const T*p()const{ return b+o; } void kept(const std::string&w)const{ for(long i=0;i<n;i++) CHECK(b[o+i]==(T)v[i],w+": input was modified"); } };
static u64 anymod(Gen&g,int maxbits=64,u64 cap=~0ULL){ int b=(int)g.range(2,maxbits); u64 lo=1ULL<<(b-1),hi=b==64?~0ULL:(1ULL<<b)-1; hi=std::min(hi,cap); if(lo>hi) lo=hi; u64 n; switch(g.draw(5)){ case 0: n=hi; break; case 1: n=lo; break; case 2: n=cap==~0ULL?hi:cap; break; default: n=lo+g.draw(hi-lo+1==0?~0ULL:hi-lo+1); } return std::max<u64>(n,2); }
static long anylen(Gen&g,long big){ switch(g.draw(8)){ case 0: return (long)g.draw(4); case 1: case 2: return (long)g.draw(20); case 3: case 4: return (long)g.draw(80); case 5: { long k=g.pick({8L,16L,32L,64L,128L,256L}); return std::max(0L,k+g.range(-2,2)); } default: return (long)g.draw(big); } }
static bool allz(const std::vector<u64>&v){ for(u64 x:v) if(x) return false; return true; }
static void dot(Gen&g,Case&c){ u64 n=anymod(g); nmod_t mod=MOD(n); int b1=(int)g.draw(65),b2=(int)g.draw(65); if(g.coin(1,4)) b1=b2=64-(int)g.draw(5); if(g.coin(1,6)) b1=b2=(int)g.range(28,33); long len=anylen(g,g.coin(1,20)?4000:400); auto x=ents(g,len,b1),y=ents(g,len,b2); c.note("modulus",n); c.note("bits",std::to_string(b1)+"+"+std::to_string(b2)); c.note("len",len); NONTRIVIAL(c,len>=3&&n>=3&&!allz(x)&&!allz(y)); c.tag(b1+b2>=126?"bits>=126":b1+b2>64?"bits>64":"bits<=64"); Acc s; for(long i=0;i<len;i++) s.add(x[i],y[i]); In<ulong> X(g,x),Y(g,y);
  { Blk<ulong> r(g,3); nmod_vec_integer_dot_product(r.p(),X.p(),Y.p(),len,b1,b2); r.ok("integer_dot_product"); CHECK(r.p()[0]==s.l[0]&&r.p()[1]==s.l[1]&&r.p()[2]==s.l[2],"integer_dot_product: wrong sum"); }
  { u64 r=nmod_vec_dot_product_unbalanced(X.p(),Y.p(),len,b1,b2,mod); CHECK(r==s.mod(n),"dot_product_unbalanced: "+std::to_string(r)+" instead of "+std::to_string(s.mod(n))); } X.kept("dot product"); Y.kept("dot product");
  // two products at a time, moduli below 2^30
  { u64 m=anymod(g,30,(1ULL<<30)-1); nmod_t md=MOD(m); long l=g.coin(1,300)?200000+(long)g.draw(5000):anylen(g,600); auto a=ents(g,l,0,m-1),b=ents(g,l,0,m-1),d=ents(g,l,0,m-1); c.note("2dot",std::to_string(m)+":"+std::to_string(l)); In<ulong> A(g,a),B(g,b),D(g,d); Acc s0,s1; for(long i=0;i<l;i++){ s0.add(a[i],d[i]); s1.add(b[i],d[i]); } Blk<ulong> r(g,2); _nmod_vec_2dot2_split(r.p(),A.p(),B.p(),D.p(),l,md,(1ULL<<DOT_SPLIT_BITS)%m); r.ok("2dot2_split"); CHECK(r.p()[0]==s0.mod(m)&&r.p()[1]==s1.mod(m),"2dot2_split: wrong result"); A.kept("2dot2_split"); B.kept("2dot2_split"); D.kept("2dot2_split"); } }
typedef void (*multi_t)(nn_ptr,nn_srcptr,nn_srcptr*,ulong,ulong,nmod_t);
static void multi(Gen&g,Case&c){ u64 n=anymod(g); nmod_t mod=MOD(n); int bu=(int)g.draw(65),bv=(int)g.draw(65); switch(g.draw(5)){ case 0: bu=bv=64-(int)g.draw(5); break; case 1: bu=bv=(int)g.range(27,32); break; case 2: bu=(int)g.draw(65); bv=std::min(64,std::max(0,58+(int)g.draw(6)-bu)); break; default:; } long len=anylen(g,g.coin(1,20)?5000:150),k=anylen(g,120); if(len*k>6000) k=6000/len; c.note("modulus",n); c.note("bits",std::to_string(bu)+"+"+std::to_string(bv)); c.note("len",len); c.note("k",k); auto u=ents(g,len,bu); In<ulong> U(g,u); std::vector<std::vector<u64>> v(len); std::vector<In<ulong>*> W(len); std::vector<nn_srcptr> pv(len+1); u64 st=g.draw(2); auto all=ents(g,len*k,bv); for(long i=0;i<len;i++){ v[i]=std::vector<u64>(all.begin()+i*k,all.begin()+(i+1)*k); W[i]=new In<ulong>(g,v[i]); pv[i]=W[i]->p(); } (void)st;
  struct Fr{ std::vector<In<ulong>*>&w; ~Fr(){ for(auto*x:w) delete x; } } fr{W};
  NONTRIVIAL(c,len>=3&&k>=2&&n>=3&&!allz(u)&&!allz(all)); std::vector<u64> want(k); u64 top1=0,top2=0; for(long j=0;j<k;j++){ Acc s; for(long i=0;i<len;i++) s.add(u[i],v[i][j]); want[j]=s.mod(n); }
  // does the bound on the sum fit one or two limbs?
  { u64 a=bu==64?~0ULL:(1ULL<<bu)-1,b=bv==64?~0ULL:(1ULL<<bv)-1; u128_t p=(u128_t)a*b; u128_t hi=(p>>64)*(u128_t)len,lo=(u128_t)(u64)p*len; hi+=lo>>64; top1=hi!=0; top2=(hi>>64)!=0; }
  auto ck=[&](const char*w,multi_t f){ Blk<ulong> r(g,k); f(r.p(),U.p(),pv.data(),len,k,mod); r.ok(w); for(long j=0;j<k;j++) CHECK(r.p()[j]==want[j],std::string(w)+": entry "+std::to_string(j)+" is "+std::to_string(r.p()[j])+" instead of "+std::to_string(want[j])); U.kept(w); for(auto*x:W) x->kept(w); };
  { Blk<ulong> r(g,k); nmod_vec_dot_product_multi(r.p(),U.p(),pv.data(),len,k,bu,bv,mod); r.ok("dot_product_multi"); for(long j=0;j<k;j++) CHECK(r.p()[j]==want[j],"dot_product_multi: entry "+std::to_string(j)+" is "+std::to_string(r.p()[j])+" instead of "+std::to_string(want[j])); }
  if(!top1){ c.tag("1-limb"); ck("multi_1_v1_8",_nmod_vec_dot_product_multi_1_v1_8); ck("multi_1_v8_8",_nmod_vec_dot_product_multi_1_v8_8); ck("multi_1_v8_32",_nmod_vec_dot_product_multi_1_v8_32); ck("multi_1_v16_16",_nmod_vec_dot_product_multi_1_v16_16); }
  if(!top2){ c.tag("2-limb"); ck("multi_2_v1_8",_nmod_vec_dot_product_multi_2_v1_8); ck("multi_2_v4_8",_nmod_vec_dot_product_multi_2_v4_8); ck("multi_2_v8_8",_nmod_vec_dot_product_multi_2_v8_8); ck("multi_2_v4_32",_nmod_vec_dot_product_multi_2_v4_32); } else c.tag("3-limb"); }
// routines announced as limited to about 52 bits and to lengths for which nothing overflows; here at most 52 bits and 1000 terms
static void draft(Gen&g,Case&c){ u64 n=anymod(g,52); nmod_t mod=MOD(n); long len=anylen(g,g.coin(1,10)?1000:300); auto x=ents(g,len,0,n-1),y=ents(g,len,0,n-1); c.note("modulus",n); c.note("len",len); NONTRIVIAL(c,len>=3&&n>=3&&!allz(x)&&!allz(y)); Acc s; for(long i=0;i<len;i++) s.add(x[i],y[i]); u64 w=s.mod(n); In<ulong> X(g,x),Y(g,y); auto one=[&](const char*f,u64 r){ CHECK(r==w,std::string(f)+": "+std::to_string(r)+" instead of "+std::to_string(w)); };
  one("dot_product_split26",_nmod_vec_dot_product_split26(X.p(),Y.p(),len,mod));
#if PML_HAVE_AVX2
  one("dot_product_split26_avx",_nmod_vec_dot_product_split26_avx(X.p(),Y.p(),len,mod));
#endif
#if PML_HAVE_AVX512
  one("dot_product_ifma256",_nmod_vec_dot_product_ifma256(X.p(),Y.p(),len,mod)); one("dot_product_ifma512",_nmod_vec_dot_product_ifma512(X.p(),Y.p(),len,mod));
  { u64 m=anymod(g,31,DOT2_ACC8_MAX_MODULUS); nmod_t md=MOD(m); long l=32*(len/32); auto a=ents(g,l,0,m-1),b=ents(g,l,0,m-1); Acc t; for(long i=0;i<l;i++) t.add(a[i],b[i]); In<uint> A(g,a),B(g,b); u64 p2=(1ULL<<52)%m; c.note("modulus32",m); CHECK(_nmod32_vec_dot_ifma_avx2(A.p(),B.p(),l,md,p2)==t.mod(m),"_nmod32_vec_dot_ifma_avx2: wrong result"); CHECK(_nmod32_vec_dot_ifma_avx512(A.p(),B.p(),l,md,p2)==t.mod(m),"_nmod32_vec_dot_ifma_avx512: wrong result"); }
#endif
  X.kept("dot product"); Y.kept("dot product");
  { long l=anylen(g,40),k=anylen(g,20); auto u=ents(g,l,0,n-1),all=ents(g,l*k,0,n-1); std::vector<nn_srcptr> pv(l+1); In<ulong> U(g,u),V(g,all); for(long i=0;i<l;i++) pv[i]=V.p()+i*k; c.note("multi",std::to_string(l)+"x"+std::to_string(k)); Blk<ulong> r(g,k); _nmod_vec_dot_product_multi_2_split26(r.p(),U.p(),pv.data(),l,k,mod); r.ok("multi_2_split26"); for(long j=0;j<k;j++){ Acc t; for(long i=0;i<l;i++) t.add(u[i],all[i*k+j]); CHECK(r.p()[j]==t.mod(n),"multi_2_split26: entry "+std::to_string(j)+" is wrong"); } U.kept("multi_2_split26"); V.kept("multi_2_split26"); } }
typedef void (*mdot_t)(n32_ptr,n32_srcptr,n32_srcptr,slong,slong,slong,nmod_t);
static void vec32(Gen&g,Case&c){ u64 n=anymod(g,31,DOT2_ACC8_MAX_MODULUS); nmod_t mod=MOD(n); u64 p2=(1ULL<<DOT_SPLIT_BITS)%n; long len=g.coin(1,200)?100000+(long)g.draw(3000):anylen(g,500); c.note("modulus",n); c.note("len",len); auto a=ents(g,len,0,n-1); std::vector<u64> b[3]; for(auto&x:b) x=ents(g,len,0,n-1); In<uint> A(g,a),B0(g,b[0]),B1(g,b[1]),B2(g,b[2]); u64 w[3]; for(int t=0;t<3;t++){ Acc s; for(long i=0;i<len;i++) s.add(a[i],b[t][i]); w[t]=s.mod(n); } NONTRIVIAL(c,len>=3&&n>=3&&!allz(a)&&!allz(b[0]));
  auto one=[&](const char*f,u64 r){ CHECK(r==w[0],std::string(f)+": "+std::to_string(r)+" instead of "+std::to_string(w[0])); };
  auto two=[&](const char*f,void(*h)(uint*,uint*,n32_srcptr,n32_srcptr,n32_srcptr,slong,nmod_t,ulong)){ Blk<uint> r0(g,1),r1(g,1); h(r0.p(),r1.p(),A.p(),B0.p(),B1.p(),len,mod,p2); r0.ok(f); r1.ok(f); CHECK(*r0.p()==w[0]&&*r1.p()==w[1],std::string(f)+": wrong result"); };
  one("dot_split",_nmod32_vec_dot_split(A.p(),B0.p(),len,mod,p2)); two("dot2_split",_nmod32_vec_dot2_split);
#if PML_HAVE_AVX2
  auto three=[&](const char*f,void(*h)(uint*,n32_srcptr,n32_srcptr,n32_srcptr,n32_srcptr,slong,nmod_t,ulong)){ Blk<uint> r(g,3); h(r.p(),A.p(),B0.p(),B1.p(),B2.p(),len,mod,p2); r.ok(f); for(int t=0;t<3;t++) CHECK(r.p()[t]==w[t],std::string(f)+": wrong result"); };
  one("dot_split_avx2",_nmod32_vec_dot_split_avx2(A.p(),B0.p(),len,mod,p2)); one("dot_msolve_avx2",_nmod32_vec_dot_msolve_avx2(A.p(),B0.p(),len,(uint)n)); two("dot2_split_avx2",_nmod32_vec_dot2_split_avx2); three("dot3_split_avx2",_nmod32_vec_dot3_split_avx2);
#if PML_HAVE_AVX512
  one("dot_split_avx512",_nmod32_vec_dot_split_avx512(A.p(),B0.p(),len,mod,p2)); two("dot2_split_avx512",_nmod32_vec_dot2_split_avx512); three("dot3_split_avx512",_nmod32_vec_dot3_split_avx512);
#endif
#endif
  A.kept("dot"); B0.kept("dot"); B1.kept("dot"); B2.kept("dot");
  // matrix-vector products
  { bool lg=g.coin(1,25); long l=anylen(g,lg?5000:200),nr=anylen(g,40); if(l*nr>(lg?20000:5000)) nr=(lg?20000:5000)/l; long st=l+(g.coin(1,2)?0:(long)g.draw(9)); auto m=ents(g,nr?(nr-1)*st+l:0,0,n-1),v=ents(g,l,0,n-1); c.note("mdot",std::to_string(nr)+"x"+std::to_string(l)+" stride "+std::to_string(st)); In<uint> M(g,m),V(g,v); std::vector<u64> want(nr); for(long i=0;i<nr;i++){ Acc s; for(long j=0;j<l;j++) s.add(m[i*st+j],v[j]); want[i]=s.mod(n); }
    auto ck=[&](const char*f,mdot_t h){ Blk<uint> r(g,nr); h(r.p(),M.p(),V.p(),nr,l,st,mod); r.ok(f); for(long i=0;i<nr;i++) CHECK(r.p()[i]==want[i],std::string(f)+": row "+std::to_string(i)+" is "+std::to_string(r.p()[i])+" instead of "+std::to_string(want[i])); M.kept(f); V.kept(f); };
    ck("mdot_split",_nmod32_vec_mdot_split); ck("mdot2_split",_nmod32_vec_mdot2_split);
#if PML_HAVE_AVX2
    ck("mdot_split_avx2",_nmod32_vec_mdot_split_avx2); ck("mdot2_split_avx2",_nmod32_vec_mdot2_split_avx2); ck("mdot3_split_avx2",_nmod32_vec_mdot3_split_avx2); ck("mdot_msolve_via_dot",_nmod32_vec_mdot_msolve_via_dot_avx2); ck("mdot_msolve_native",_nmod32_vec_mdot_msolve_native_avx2);
#if PML_HAVE_AVX512
    ck("mdot_split_avx512",_nmod32_vec_mdot_split_avx512); ck("mdot2_split_avx512",_nmod32_vec_mdot2_split_avx512); ck("mdot3_split_avx512",_nmod32_vec_mdot3_split_avx512);
#endif
#endif
  }
  { FR st(g); long l=(long)g.draw(30); Blk<uint> r(g,l); _nmod32_vec_rand(r.p(),st,l,mod); r.ok("nmod32_vec_rand"); for(long i=0;i<l;i++) CHECK(r.p()[i]<n,"nmod32_vec_rand: entry not reduced"); Blk<ulong> q(g,l); u64 nn=anymod(g); _nmod_vec_rand(q.p(),st,l,MOD(nn)); q.ok("nmod_vec_rand"); for(long i=0;i<l;i++) CHECK(q.p()[i]<nn,"nmod_vec_rand: entry not reduced"); } }
static void matmul(Gen&g,Case&c){ bool small=g.coin(1,2); u64 n=small?anymod(g,30,(1ULL<<30)-1):anymod(g); ref::P=n; c.note("modulus",n); long m=anylen(g,24),k=anylen(g,g.coin(1,5)?90:24),q=anylen(g,24); if(m*k*q>40000){ m=std::min(m,24L); q=std::min(q,24L); k=std::min(k,60L); } bool sq=g.coin(1,4); if(sq) k=q=m; else if(g.coin(1,20)){ m=std::min(m,3L); q=std::min(q,3L); k=1000+(long)g.draw(4000); } std::ostringstream o; o<<m<<"x"<<k<<"x"<<q; c.note("dims",o.str()); CMat A(m,k),B(k,q); A.a=ents(g,m*k,0,n-1); B.a=ents(g,k*q,0,n-1); NONTRIVIAL(c,m>=2&&k>=2&&q>=2&&n>=3); CMat C=ref::cmul(A,B); u64 alg=g.draw(small?3:2); std::string w=alg==0?"mul_newdot":alg==1?"mul_pml":"mul_2dot"; c.note("alg",w); c.tag("alg:"+w);
  auto run=[&](nmod_mat_struct*c,const nmod_mat_struct*a,const nmod_mat_struct*b){ if(alg==0) nmod_mat_mul_newdot(c,a,b); else if(alg==1) nmod_mat_mul_pml(c,a,b); else nmod_mat_mul_2dot(c,a,b); };
  FM X(g,A),Y(g,B); { CMat D(m,q); D.a=ents(g,m*q,0,n-1); FM Z(g,D); run(Z,X,Y); CHECK(Z.val()==C,w+": wrong product"); X.kept(w); Y.kept(w); }
  if(k==q&&g.coin(1,2)){ FM T(g,A); run(T,T,Y); CHECK(T.val()==C,w+": wrong product when the output is the left operand"); Y.kept(w); c.tag("alias"); }
  if(m==k&&g.coin(1,2)){ FM T(g,B); run(T,X,T); CHECK(T.val()==C,w+": wrong product when the output is the right operand"); X.kept(w); c.tag("alias"); }
  if(sq){ FM T(g,A); run(T,T,T); CHECK(T.val()==ref::cmul(A,A),w+": wrong square in place"); }
  // matrix times vector, on the leading columns
  { long l=k?(long)g.draw(k+1):0; if(g.coin(1,2)) l=k; auto u=ents(g,l,0,n-1); In<ulong> U(g,u); Vec want(m); for(long i=0;i<m;i++){ Acc s; for(long j=0;j<l;j++) s.add(A.at(i,j),u[j]); want[i]=s.mod(n); } for(int t=0;t<(small?2:1);t++){ std::string f=t?"mul_nmod_vec_2dot":"mul_nmod_vec_newdot"; Blk<ulong> r(g,m); if(t) nmod_mat_mul_nmod_vec_2dot(r.p(),X,U.p(),l); else nmod_mat_mul_nmod_vec_newdot(r.p(),X,U.p(),l); r.ok(f); for(long i=0;i<m;i++) CHECK(r.p()[i]==want[i],f+": wrong entry "+std::to_string(i)); X.kept(f); U.kept(f); } } }
static CMat in_cm(Gen&g,Case&c,long big){ Field f=gen_field(g); note_field(c,f); long m=g.size(0,big),n=g.size(0,big); CMat A; if(m*n&&g.coin(1,3)){ long r=(long)g.draw(std::min(m,n)+1); A=r?ref::cmul(gen_cmat(g,m,r),gen_cmat(g,r,n)):CMat(m,n); } else A=gen_cmat(g,m,n); if(m*n&&g.coin(1,3)){ Rng q(g.seed32()); for(auto&x:A.a) if(q.below(3)) x=0; } if(m>1&&n&&g.coin(1,5)){ long i=1+(long)g.draw(m-1); for(long j=0;j<n;j++) A.at(i,j)=A.at(i-1,j); } c.note("dims",std::to_string(m)+"x"+std::to_string(n)); NONTRIVIAL(c,m>=2&&n>=2&&ref::P>=3); return A; }
static CMat lead(const CMat&A,long r,long k){ CMat B(r,k); for(long i=0;i<r;i++) for(long j=0;j<k;j++) B.at(i,j)=A.at(i,j); return B; }
static void pluq(Gen&g,Case&c){ CMat A=in_cm(g,c,g.coin(1,8)?45:12); long m=A.r,n=A.c,rk=ref::crank(A); c.note("rank",rk); c.tag(rk==std::min(m,n)?"full-rank":"rank-deficient"); bool cr=g.coin(1,2); std::string w=cr?"pluq_crout":"pluq"; c.tag("alg:"+w); std::vector<slong> P(m+1),Q(n+1); for(long i=0;i<=m;i++) P[i]=i; for(long i=0;i<=n;i++) Q[i]=i; FM M(g,A); slong r=cr?nmod_mat_pluq_crout(M,P.data(),Q.data()):nmod_mat_pluq(M,P.data(),Q.data()); CHECK(r==rk,w+": rank "+std::to_string(r)+" instead of "+std::to_string(rk)); CHECK(P[m]==m&&Q[n]==n,w+": permutation written out of bounds"); CMat LU=M.val();
  std::vector<int> sp(m),sq(n); for(long i=0;i<m;i++){ CHECK(P[i]>=0&&P[i]<m&&!sp[P[i]],w+": P is not a permutation"); sp[P[i]]=1; } for(long j=0;j<n;j++){ CHECK(Q[j]>=0&&Q[j]<n&&!sq[Q[j]],w+": Q is not a permutation"); sq[Q[j]]=1; }
  CMat L=ref::cident(m),U(m,n); for(long i=0;i<m;i++) for(long j=0;j<std::min(i,rk);j++) L.at(i,j)=LU.at(i,j); for(long i=0;i<rk;i++) for(long j=i;j<n;j++) U.at(i,j)=LU.at(i,j); CMat R=ref::cmul(L,U); for(long i=0;i<m;i++) for(long j=0;j<n;j++) CHECK(R.at(i,j)==A.at(P[i],Q[j]),w+": P*L*U*Q is not the matrix");
  // rank profiles
  { long k=0; std::vector<long> rrp,non; for(long i=0;i<m;i++){ long t=ref::crank(lead(A,i+1,n)); if(t>k) rrp.push_back(i); else non.push_back(i); k=t; } rrp.insert(rrp.end(),non.begin(),non.end()); for(long i=0;i<m;i++) CHECK(P[i]==rrp[i],w+": P is not the row rank profile followed by the other rows"); if(m*n<=80) for(long i=0;i<rk;i++){ long a=P[i],b=Q[i]; CHECK(ref::crank(lead(A,a+1,b+1))-ref::crank(lead(A,a,b+1))-ref::crank(lead(A,a+1,b))+ref::crank(lead(A,a,b))==1,w+": the rank profile matrix is not preserved"); } for(long j=rk+1;j<n;j++) CHECK(Q[j]>Q[j-1],w+": the columns without pivot are not in their order"); }
  // expansion of the compact form
  for(int z=0;z<2;z++){ bool zin=z==0; std::string e=zin?"l_u_from_compactlu_zeroin":"l_u_from_compactlu"; FM K(g,LU); CMat D1(m,m),D2(m,n); if(!zin){ D1.a=ents(g,m*m,0,ref::P-1); D2.a=ents(g,m*n,0,ref::P-1); } FM Lm(g,D1); if(g.coin(1,2)){ if(zin) _nmod_mat_l_u_from_compactlu_zeroin(Lm,K,K,rk); else nmod_mat_l_u_from_compactlu(Lm,K,K,rk); CHECK(Lm.val()==L,e+": wrong L (U in place)"); CHECK(K.val()==U,e+": wrong U (in place)"); } else { FM Um(g,D2); if(zin) _nmod_mat_l_u_from_compactlu_zeroin(Lm,Um,K,rk); else nmod_mat_l_u_from_compactlu(Lm,Um,K,rk); CHECK(Lm.val()==L,e+": wrong L"); CHECK(Um.val()==U,e+": wrong U"); K.kept(e); } } }
static void nullsp(Gen&g,Case&c){ CMat A=in_cm(g,c,g.coin(1,8)?40:12); long m=A.r,n=A.c,rk=ref::crank(A); c.note("rank",rk); c.tag(rk==m?"trivial nullspace":"nullspace"); FM M(g,A);
  std::vector<long> piv,non; { long k=0; for(long i=0;i<m;i++){ long t=ref::crank(lead(A,i+1,n)); if(t>k) piv.push_back(i); else non.push_back(i); k=t; } }
  nmod_mat_t X; slong nu=nmod_mat_left_nullspace(X,M); struct Cl{ nmod_mat_struct*x; ~Cl(){ nmod_mat_clear(x); } } c1{X}; M.kept("left_nullspace"); CHECK(nu==m-rk,"left_nullspace: nullity "+std::to_string(nu)+" instead of "+std::to_string(m-rk)); CMat K=get(X); CHECK(K.r==nu&&K.c==m,"left_nullspace: wrong dimensions"); CMat Z=ref::cmul(K,A); for(u64 x:Z.a) CHECK(x==0,"left_nullspace: a row does not annihilate the matrix"); for(long i=0;i<nu;i++){ for(long j=non[i]+1;j<m;j++) CHECK(K.at(i,j)==0,"left_nullspace: the basis is not in reduced row echelon form with rightmost pivots"); for(long k=0;k<nu;k++) CHECK(K.at(k,non[i])==(k==i?1%ref::P:0),"left_nullspace: pivot columns are not identity columns"); }
  nmod_mat_t Y; std::vector<slong> perm(m+1,-7); slong n2=nmod_mat_left_nullspace_compact(Y,perm.data(),M); Cl c2{Y}; CHECK(n2==nu,"left_nullspace_compact: wrong nullity"); M.kept("left_nullspace_compact"); CHECK(perm[m]==-7,"left_nullspace_compact: permutation written out of bounds"); CMat V=get(Y); CHECK(V.r==nu&&V.c==rk,"left_nullspace_compact: wrong dimensions"); for(long i=0;i<rk;i++) CHECK(perm[i]==piv[i],"left_nullspace_compact: the permutation does not start with the row rank profile"); for(long i=0;i<nu;i++) CHECK(perm[rk+i]==non[i],"left_nullspace_compact: the permutation does not end with the pivots"); for(long i=0;i<nu;i++) for(long j=0;j<rk;j++) CHECK(V.at(i,j)==K.at(i,piv[j]),"left_nullspace_compact: not the nonpivot columns of the basis"); }
static void rotate(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=g.size(0,9),n=g.size(0,9); CMat A=gen_cmat(g,m,n); for(size_t i=0;i<A.a.size();i++) if(ref::P>100) A.a[i]=i+1; c.note("dims",std::to_string(m)+"x"+std::to_string(n)); NONTRIVIAL(c,m>=2&&n>=2&&ref::P>=3); u64 k=g.draw(5); long d=k<2?m:n; if(k<4&&d==0) return; long i=k<4?(long)g.draw(d):0,j=k<4?i+(long)g.draw(d-i):0; bool nv=g.coin(1,4); std::vector<slong> v(d+1); for(long t=0;t<=d;t++) v[t]=100+t; FM M(g,A); CMat B=A; std::vector<slong> w=v; static const char*N[]={"rotate_rows_downward","rotate_rows_upward","rotate_columns_rightward","rotate_columns_leftward","permute_columns"}; std::string nm=N[k]; c.note("op",nm); c.note("i",i); c.note("j",j); c.tag("op:"+nm); std::vector<slong> act(d); for(long t=0;t<d;t++) act[t]=t; slong*vp=nv?nullptr:v.data();
  if(k<4){ bool back=k==0||k==2; for(long t=i;t<=j;t++) act[t]=back?(t==i?j:t-1):(t==j?i:t+1); } else { Rng q(g.seed32()); for(long t=d-1;t>0;t--) std::swap(act[t],act[q.below(t+1)]); }
  if(k<2) for(long t=0;t<m;t++) for(long s=0;s<n;s++) B.at(t,s)=A.at(act[t],s); else for(long t=0;t<m;t++) for(long s=0;s<n;s++) B.at(t,s)=A.at(t,act[s]); for(long t=0;t<d;t++) w[t]=100+act[t];
  if(k==0) _nmod_mat_rotate_rows_downward(M,vp,i,j); else if(k==1) _nmod_mat_rotate_rows_upward(M,vp,i,j); else if(k==2) _nmod_mat_rotate_columns_rightward(M,vp,i,j); else if(k==3) _nmod_mat_rotate_columns_leftward(M,vp,i,j); else nmod_mat_permute_columns(M,act.data(),vp); CHECK(M.val()==B,nm+": wrong matrix"); if(!nv) CHECK(v==w,nm+": wrong action on the vector"); }
static void randoms(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long m=g.size(0,10),n=g.size(0,10),mn=std::min(m,n); long rk=(long)g.draw(mn+1); bool full=g.coin(1,3); if(full) rk=mn; bool unit=g.coin(1,2); c.note("dims",std::to_string(m)+"x"+std::to_string(n)); c.note("rank",rk); NONTRIVIAL(c,m>=2&&n>=2&&ref::P>=3); FR st(g); CMat D(m,n); D.a=ents(g,m*n,0,ref::P-1); FM M(g,D); u64 k=g.draw(10); static const char*N[]={"rand_lref","rand_uref","rand_lrref","rand_urref","rand_lcef","rand_ucef","rand_lrcef","rand_urcef","randrank_dense","rand"}; std::string w=N[k]; c.note("op",w); c.tag("op:"+w);
  switch(k){ case 0: full?nmod_mat_rand_fullrank_lref(M,st,unit):nmod_mat_rand_lref(M,st,rk,unit); break; case 1: full?nmod_mat_rand_fullrank_uref(M,st,unit):nmod_mat_rand_uref(M,st,rk,unit); break; case 2: full?nmod_mat_rand_fullrank_lrref(M,st):nmod_mat_rand_lrref(M,st,rk); break; case 3: full?nmod_mat_rand_fullrank_urref(M,st):nmod_mat_rand_urref(M,st,rk); break; case 4: full?nmod_mat_rand_fullrank_lcef(M,st,unit):nmod_mat_rand_lcef(M,st,rk,unit); break; case 5: full?nmod_mat_rand_fullrank_ucef(M,st,unit):nmod_mat_rand_ucef(M,st,rk,unit); break; case 6: full?nmod_mat_rand_fullrank_lrcef(M,st):nmod_mat_rand_lrcef(M,st,rk); break; case 7: full?nmod_mat_rand_fullrank_urcef(M,st):nmod_mat_rand_urcef(M,st,rk); break; case 8: full?nmod_mat_rand_fullrank(M,st):nmod_mat_randrank_dense(M,st,rk); break; default: nmod_mat_rand(M,st); }
  CMat A=M.val(); if(k==9){ if(m*n>=4&&ref::P>(1ULL<<40)){ long same=0; for(size_t t=0;t<A.a.size();t++) same+=A.a[t]==D.a[t]; CHECK(same<=1,"rand: entries left unchanged"); } } else CHECK(ref::crank(A)==rk,w+": rank "+std::to_string(ref::crank(A))+" instead of "+std::to_string(rk));
  if(k<8){ bool col=k>=4; bool low=k==0||k==2||k==5||k==7; /* pivots: rightmost (row forms lref, lrref) */ bool red=k==2||k==3||k==6||k==7; if(col) A=ref::ctr(A); long last=-1; std::vector<long> pv; for(long i=0;i<A.r;i++){ long p=-1; for(long j=0;j<A.c;j++) if(A.at(i,j)){ p=j; if(!low) break; } if(i<rk){ CHECK(p>last,w+": pivots do not increase"); last=p; pv.push_back(p); if(red||unit) CHECK(A.at(i,p)==1%ref::P,w+": pivot is not one"); } else CHECK(p<0,w+": nonzero row or column beyond the rank"); } if(red) for(long i=0;i<rk;i++) for(long t=0;t<rk;t++) if(t!=i) CHECK(A.at(t,pv[i])==0,w+": pivot column not reduced"); }
  // polynomials and primes
  { long l=g.range(-2,20); FP p(gen_pmat(g,1,1,5).at(0,0)),q(gen_pmat(g,1,1,5).at(0,0)); nmod_poly_rand(p,st,l); CHECK((long)p.val().size()<=std::max(0L,l),"nmod_poly_rand: too long"); nmod_poly_rand_monic(q,st,l); ref::Poly v=q.val(); CHECK((long)v.size()==std::max(0L,l),"nmod_poly_rand_monic: wrong length"); CHECK(v.empty()||v.back()==1%ref::P,"nmod_poly_rand_monic: not monic"); }
  { int b=(int)g.range(8,60); long l=1+(long)g.draw(12); Blk<ulong> v(g,l); nmod_vec_primes(v.p(),l,b); v.ok("nmod_vec_primes"); u64 e=1ULL<<(b-1); for(long i=0;i<l;i++){ e=nextprime(e+1); CHECK(v.p()[i]==e,"nmod_vec_primes: entry "+std::to_string(i)+" is "+std::to_string(v.p()[i])+", not the next prime "+std::to_string(e)); CHECK((e>>(b-1))==1,"nmod_vec_primes: wrong bit length"); } } }
std::vector<Sub> SUBS={{"draft",draft,100000,2000000,200},{"dot",dot,60000,1000000,500},{"multi",multi,60000,1000000,500},{"vec32",vec32,60000,1000000,500},{"matmul",matmul,80000,1000000,500},{"pluq",pluq,120000,1500000,500},{"nullspace",nullsp,120000,1500000,500},{"rotate",rotate,150000,1500000,1000},{"random",randoms,60000,1000000,500}};
