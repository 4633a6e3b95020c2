// multipoint objects with a known list of points
#pragma once
#include "h.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
using namespace NTL; using ref::Poly; using ref::PMat; using ref::CMat;
struct MP { int kind=0; long n=0; std::unique_ptr<PML::zz_pX_Multipoint> o; PML::zz_pX_Multipoint_Geometric*geo=nullptr; ref::Vec pts; };
inline const char* mpname(int k){ return k==0?"general":k==1?"geometric":"fft"; }
inline bool order_ge(u64 r,long b){ u64 x=1%ref::P; for(long i=1;i<b;i++){ x=ref::mul(x,r); if(x==1%ref::P) return false; } return true; }
inline MP gen_mp(Gen&g,Case&c,long maxn){ MP m; m.kind=(int)g.draw(3); 
  if(m.kind==2){ Field f; if(g.coin(1,4)){ f.kind=F_USERFFT; f.idx=0; f.p=g.pick({97ULL,193ULL,257ULL,769ULL,12289ULL,40961ULL}); set_field(f);} else f=gen_field(g,F_FFT|F_USERFFT); note_field(c,f); long k=g.range(0,7); while(k>zz_pInfo->MaxRoot||(1L<<k)>maxn) k--; m.n=1L<<k; 
    long ask=g.coin(1,2)?m.n:(m.n/2)+1; if(ask>m.n) ask=m.n; if(g.coin(1,3)) m.o.reset(new PML::zz_pX_Multipoint_FFT(m.n)); else m.o.reset(new PML::zz_pX_Multipoint_FFT(PML::get_FFT_points(ask)));
    CHECK(m.o->length()>=ask,"fewer points than requested"); m.n=m.o->length(); Vec<zz_p> p; m.o->get_points(p); m.pts=get(p); CHECK((long)m.pts.size()==m.n,"wrong number of points"); auto q=m.pts; std::sort(q.begin(),q.end()); for(long i=0;i+1<m.n;i++) CHECK(q[i]!=q[i+1],"repeated FFT point"); for(u64 x:m.pts) CHECK(ref::pw(x,m.n)==1,"FFT point is not a root of unity"); }
  else { Field f; if(m.kind==1&&g.coin(1,6)){ f.kind=F_USERFFT; f.idx=0; f.p=g.pick({97ULL,193ULL,257ULL,769ULL,12289ULL}); set_field(f);} else f=gen_field(g); note_field(c,f);
    if(m.kind==0){ m.n=1+(g.size(0,std::min<long>(maxn,ref::P)-1)); if(g.coin(1,6)){ m.o.reset(new PML::zz_pX_Multipoint_General(PML::get_general_points(m.n))); Vec<zz_p> p; m.o->get_points(p); m.pts=get(p); }
      else { std::map<u64,int> seen; Rng r(g.seed32()); u64 st=g.draw(3); while((long)m.pts.size()<m.n){ u64 x=st==0||ref::P<(u64)4*m.n?(m.pts.size()?m.pts.back()+1:r())%ref::P:r()%ref::P; if(st==2&&m.pts.empty()) x=0; if(!seen[x]++) m.pts.push_back(x); }
        if(g.coin(1,3)){ long off=g.range(0,4); ref::Vec q(off,3%ref::P); q.insert(q.end(),m.pts.begin(),m.pts.end()); q.push_back(1%ref::P); m.o.reset(new PML::zz_pX_Multipoint_General(putv(q),off,m.n)); } else m.o.reset(new PML::zz_pX_Multipoint_General(putv(m.pts))); } }
    else { long mx=std::min<long>(maxn,(long)(ref::P/2)); if(mx<1) mx=1; m.n=1+g.size(0,mx-1); if(f.kind==F_USERFFT&&f.p<20000) { long room=(zz_pInfo->MaxRoot<20)?(1L<<zz_pInfo->MaxRoot):1L<<20; if(m.n>=NTL_zz_pX_MUL_CROSSOVER&&4*m.n>room) m.n=std::max<long>(1,std::min<long>(NTL_zz_pX_MUL_CROSSOVER-1,mx)); }
      Rng rr(g.seed32()); u64 r=0; int tries=0; while(m.n>1||r==0){ r=1+rr()%(ref::P-1); if(r&&order_ge(r,2*m.n-1)) break; if(++tries>60){ m.n=(m.n+1)/2; tries=0; } }
      u64 s=g.coin(1,3)?1%ref::P:gen_nz(g); PML::zz_pX_Multipoint_Geometric*q; if(s==1&&g.coin(1,2)) q=new PML::zz_pX_Multipoint_Geometric(Z(r),m.n); else q=new PML::zz_pX_Multipoint_Geometric(Z(r),Z(s),m.n); m.o.reset(q); m.geo=q; c.note("r",r); c.note("s",s); u64 x=s; for(long i=0;i<m.n;i++){ m.pts.push_back(x); x=ref::mul(x,ref::mul(r,r)); } } }
  CHECK(m.o->length()==m.n,"length() wrong"); c.note("kind",mpname(m.kind)); c.note("n",m.n); c.tag(mpname(m.kind)); return m; }
inline void tweak(Gen&g,Case&c,MP&m){ if(!m.geo) return; switch(g.draw(8)){ case 0: m.geo->set_FFT_evaluate(); c.note("op","fftE"); break; case 1: m.geo->unset_FFT_evaluate(); c.note("op","noE"); break; case 2: m.geo->set_FFT_interpolate(); c.note("op","fftI"); break; case 3: m.geo->unset_FFT_interpolate(); c.note("op","noI"); break; case 4: m.geo->decide_FFT(); break; case 5: if(m.n>=1){ long d=(long)g.draw(m.n); m.geo->prepare_degree(d); c.note("prep",d);} break; } }
