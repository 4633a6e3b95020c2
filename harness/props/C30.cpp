// C30: verifiers of approximant, interpolant and kernel bases
#include "bases.h"
#include "mat_lzz_pX_kernel.h"
const char* PROP_RULE="bases computed by the library for random problems (every prime size, shifts of any sign, wide to tall, zero/low-rank/x-multiple data) are left alone or corrupted (one coefficient changed, a row scaled by a constant, by x, by x-a or by a random polynomial, row operations, rows permuted or dropped or duplicated or zeroed, a basis for a smaller or larger order, another shift, an unrelated matrix), then submitted to is_approximant_basis (randomized), is_interpolant_basis (both inputs, general and geometric points) and is_kernel_basis (deterministic and randomized) for each requested form; the verdict must be that of independent definitions (annihilation by direct product, shifted form, determinant degree = codimension); a wrong acceptance is tolerated only where the announced Monte Carlo step decides and the field is small; non-trivial: at least two rows and non-zero data";
std::vector<std::string> ASSUMPTIONS={"requested form at least reduced","is_approximant_basis is implemented for randomized=true only and is_interpolant_basis for randomized=false only (documented)","is_kernel_basis announces no test of generation: only annihilation, form and width are compared","Monte Carlo steps over primes above 2^33 are expected not to fail (probability below 2^-25 per case)"};
std::vector<Known> KNOWN={};
static PMat corrupt(Gen&g,Case&c,const PMat&B,bool&same){ PMat P=B; Rng q(g.seed32()); long m=P.r,w=P.c; same=false; u64 k=g.draw(14); if(m==0||w==0) k=0; static const char*nm[]={"none","none","coefficient","scaled-row","row-times-x","row-times-linear","row-times-poly","row-operation","permuted","dropped-row","duplicated-row","zero-row","constant-row-op","identity"}; c.note("change",nm[k]); c.tag(std::string("change:")+nm[k]); long i=m?(long)q.below(m):0,j=m?(long)q.below(m):0,e=w?(long)q.below(w):0; auto mulrow=[&](long r,const Poly&f){ for(long t=0;t<w;t++) P.at(r,t)=ref::pmul(P.at(r,t),f); };
  switch(k){ case 0: case 1: same=true; break; case 2: { Poly&p=P.at(i,e); long t=(long)q.below(std::max<long>(1,(long)p.size()+1)); if((long)p.size()<=t) p.resize(t+1,0); p[t]=ref::add(p[t],1+q()%(ref::P-1)); ref::norm(p); break; } case 3: mulrow(i,Poly{1+q()%(ref::P-1)}); break; case 4: mulrow(i,Poly{0,1}); break; case 5: { Poly f{q()%ref::P,1}; mulrow(i,f); break; } case 6: { Poly f; for(int t=0;t<3;t++) f.push_back(q()%ref::P); f.push_back(1); mulrow(i,f); break; }
   case 7: case 12: if(i!=j){ Poly f; for(long t=0;t<(k==12?1:1+(long)q.below(3));t++) f.push_back(q()%ref::P); ref::norm(f); for(long t=0;t<w;t++) P.at(i,t)=ref::padd(P.at(i,t),ref::pmul(f,P.at(j,t))); } break; case 8: for(long t=0;t<w;t++) std::swap(P.at(i,t),P.at(j,t)); break;
   case 9: { PMat R(m-1,w); for(long a=0,b=0;a<m;a++) if(a!=i){ for(long t=0;t<w;t++) R.at(b,t)=P.at(a,t); b++; } P=R; break; } case 10: { PMat R(m+1,w); for(long a=0;a<=m;a++) for(long t=0;t<w;t++) R.at(a,t)=P.at(a<m?a:i,t); P=R; break; } case 11: for(long t=0;t<w;t++) P.at(i,t)=Poly(); break; default: P=ref::mident(w); } return P; }
static PolMatForm fm(int f){ return f==1?REDUCED:f==2?WEAK_POPOV:f==3?ORD_WEAK_POPOV:POPOV; }
static std::string yn(bool b){ return b?"accepted":"rejected"; }
static Field fld(Gen&g,u64 minp){ return g.coin(1,2)?gen_field(g,F_BIG|F_FFT|F_USERFFT,1ULL<<33):gen_field(g,F_ALL,minp); }
static void t_app(Gen&g,Case&c){ Field f=fld(g,2); note_field(c,f); long m=1+g.size(0,5),n=1+g.size(0,4),D=1+g.size(0,8); VL o(n,D); if(g.coin(1,2)) for(auto&x:o) x=1+(long)g.draw(D); PMat F=gen_series(g,m,n,D+(g.coin(1,3)?(long)g.draw(4):0)); VL s=gen_shift(g,m,g.coin(1,4)?2*D:4); c.note("m",m); c.note("n",n); c.note("orders",vstr(o)); c.note("shift",vstr(s)); bool nz=false; for(auto&p:F.a) nz|=ref::deg(p)>=0; NONTRIVIAL(c,m>=2&&nz);
  VL o2=o; u64 od=g.draw(8); if(od==6) for(auto&x:o2) x=std::max<long>(1,x-1); if(od==7) for(auto&x:o2) x++; VL s2=g.coin(1,8)?gen_shift(g,m,4):s; bool pop=g.coin(1,2); Mat<zz_pX> P; VecLong sh(s2.begin(),s2.end()),oo(o2.begin(),o2.end()); VecLong rd; { Quiet q; approximant_basis(P,rd,put(F),oo,sh,pop?POPOV:ORD_WEAK_POPOV); } bool same; PMat B=corrupt(g,c,get(P),same); int form=1+(int)g.draw(4); c.note("form",form);
  bool ann=B.c==m,sq=B.r==m&&B.c==m,fo=false,gen=false; if(sq){ PMat R=colmod(ref::mmul(B,F),o); for(auto&p:R.a) ann&=ref::deg(p)<0; fo=f_form(form,B,s); if(ann&&fo){ VL d=rrdeg(B,s); gen=vsum(d)-vsum(s)==app_codim(F,o); } } bool truth=sq&&ann&&fo&&gen; Mat<zz_pX> bm=put(B),pm=put(F); VecLong ss(s.begin(),s.end()),ov(o.begin(),o.end()); bool got; { Quiet q; bool unif=std::all_of(o.begin(),o.end(),[&](long x){return x==o[0];}); got=unif&&g.coin(1,2)?is_approximant_basis(bm,pm,o[0],ss,fm(form),true):is_approximant_basis(bm,pm,ov,ss,fm(form),true); } c.tag(truth?"truth:basis":!sq?"truth:shape":!fo?"truth:form":!ann?"truth:not-annihilating":"truth:not-generating"); ckm(bm,B,"basis afterwards");
  if(got!=truth&&!(got&&sq&&ann&&fo&&!gen&&ref::P<(1ULL<<33))) FAIL("is_approximant_basis "+yn(got)+" a matrix which is "+(truth?"a basis":!sq?"of the wrong shape":!fo?"not in the requested form":!ann?"not made of approximants":"not generating")); }
static void t_int(Gen&g,Case&c){ bool geo=g.coin(1,2),fromp=g.coin(1,2); long m=1+g.size(0,5),n=1+g.size(0,4),D=1+g.size(0,10); Field f=fld(g,geo?8*D+20:D); note_field(c,f); ref::Vec pts; u64 r=0; if(geo){ r=gen_ratio(g,2*D+2); if(!r) throw Discard(); u64 x=1,r2=ref::mul(r,r); for(long i=0;i<D;i++){ pts.push_back(x); x=ref::mul(x,r2); } } else pts=gen_pts(g,D); PMat F=gen_series(g,m,n,geo?D:D+(g.coin(1,3)?(long)g.draw(4):0)); if(geo) for(auto&p:F.a) p=ref::ptrunc(p,D); std::vector<CMat> E; for(u64 x:pts) E.push_back(ref::meval(F,x)); VL s=gen_shift(g,m,g.coin(1,4)?2*D:4); c.note("m",m); c.note("n",n); c.note("points",D); c.note("geometric",geo); c.note("shift",vstr(s)); bool nz=false; for(auto&p:F.a) nz|=ref::deg(p)>=0; NONTRIVIAL(c,m>=2&&nz); c.tag(geo?"points:geometric":"points:general");
  long Dw=D; if(D>1&&g.coin(1,8)) Dw=D-1; VL s2=g.coin(1,8)?gen_shift(g,m,4):s; VecLong sh(s2.begin(),s2.end()); ref::Vec pw(pts.begin(),pts.begin()+Dw); Mat<zz_pX> P; if(g.coin(1,2)){ Vec<Mat<zz_p>> ev; ev.SetLength(Dw); for(long i=0;i<Dw;i++) ev[i]=put(E[i]); popov_mbasis(P,ev,putv(pw),sh); } else pmbasis(P,put(F),putv(pw),sh); bool same; PMat B=corrupt(g,c,get(P),same); int form=1+(int)g.draw(4); c.note("form",form);
  bool sq=B.r==m&&B.c==m,fo=false,ann=true,gen=false; if(sq){ long cod=0; for(long k=0;k<D;k++){ cod+=ref::crank(E[k]); for(u64 x:ref::cmul(ref::meval(B,pts[k]),E[k]).a) ann&=x==0; } fo=f_form(form,B,s); gen=fo&&vsum(rrdeg(B,s))-vsum(s)==cod; } bool truth=sq&&ann&&fo&&gen; Mat<zz_pX> bm=put(B),pm=put(F); Vec<Mat<zz_p>> ev; ev.SetLength(D); for(long i=0;i<D;i++) ev[i]=put(E[i]); VecLong ss(s.begin(),s.end()); bool got; { Quiet q; if(geo) got=fromp?is_interpolant_basis_geometric(bm,pm,Z(r),D,ss,fm(form)):is_interpolant_basis_geometric(bm,ev,Z(r),D,ss,fm(form)); else got=fromp?is_interpolant_basis(bm,pm,putv(pts),ss,fm(form)):is_interpolant_basis(bm,ev,putv(pts),ss,fm(form)); } c.tag(truth?"truth:basis":!sq?"truth:shape":!fo?"truth:form":!ann?"truth:not-annihilating":"truth:not-generating"); ckm(bm,B,"basis afterwards");
  if(got!=truth) FAIL(std::string(geo?"is_interpolant_basis_geometric ":"is_interpolant_basis ")+yn(got)+" a matrix which is "+(truth?"a basis":!sq?"of the wrong shape":!fo?"not in the requested form":!ann?"not made of interpolants":"not generating")); }
static void t_ker(Gen&g,Case&c){ Field f=fld(g,2); note_field(c,f); long m=1+g.size(0,5),n=1+g.size(0,3),d=1+g.size(0,4); PMat F=gen_series(g,m,n,d); VL s=gen_shift(g,m,4); c.note("m",m); c.note("n",n); c.note("shift",vstr(s)); bool nz=false; for(auto&p:F.a) nz|=ref::deg(p)>=0; NONTRIVIAL(c,m>=2&&nz); VL s2=g.coin(1,8)?gen_shift(g,m,4):s; Mat<zz_pX> K; VecLong sh(s2.begin(),s2.end()); { Quiet q; kernel_basis(K,put(F),sh); } PMat k0=get(K); if(k0.r==0) k0=PMat(0,m); bool same; PMat B=corrupt(g,c,k0,same); int form=1+(int)g.draw(4); bool rnd=g.coin(1,2); c.note("rows",B.r); c.note("form",form); c.note("randomized",rnd); if(B.r==0){ c.tag("truth:empty"); throw Discard(); } bool fo=f_form(form,B,s),ann=true; for(auto&p:ref::mmul(B,F).a) ann&=ref::deg(p)<0; bool truth=fo&&ann; Mat<zz_pX> bm=put(B); VecLong ss(s.begin(),s.end()); bool got; { Quiet q; got=is_kernel_basis(bm,put(F),ss,fm(form),rnd); } c.tag(truth?"truth:basis":!fo?"truth:form":"truth:not-annihilating"); ckm(bm,B,"basis afterwards"); if(got!=truth&&!(got&&rnd&&fo&&ref::P<(1ULL<<33))) FAIL("is_kernel_basis "+yn(got)+" a matrix which is "+(truth?"in the kernel and in form":!fo?"not in the requested form":"not in the kernel"));
  // a width that is not the number of rows
  if(g.coin(1,4)){ PMat W(B.r,m+1); for(long i=0;i<B.r;i++) for(long j=0;j<m;j++) W.at(i,j)=B.at(i,j); Mat<zz_pX> wm=put(W); VecLong sw=ss; sw.push_back(0); Quiet q; CHECK(!is_kernel_basis(wm,put(F),sw,fm(form),rnd),"is_kernel_basis accepted a matrix with too many columns"); } }
std::vector<Sub> SUBS={{"approximant",t_app,60000,1200000,50},{"interpolant",t_int,60000,1200000,50},{"kernel",t_ker,60000,1200000,50}};
