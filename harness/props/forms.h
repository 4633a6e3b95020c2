// reference definitions of shifted degrees, pivots and forms (independent of PML)
#pragma once
#include "pm.h"
typedef std::vector<long> VL;
inline std::string vstr(const VL&v){ std::ostringstream o; o<<"("; for(size_t i=0;i<v.size();i++){ if(i) o<<","; if(i>=20){ o<<"..."; break; } o<<v[i]; } o<<")"; return o.str(); }
// shifted degree of each row; zero row -> min(shift)-1
inline VL rrdeg(const PMat&A,const VL&s){ long m=s.empty()?0:*std::min_element(s.begin(),s.end()); VL d(A.r,m-1); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) if(ref::deg(A.at(i,j))>=0) d[i]=std::max(d[i],ref::deg(A.at(i,j))+s[j]); return d; }
inline void rpiv(const PMat&A,const VL&s,VL&ind,VL&dg){ ind.assign(A.r,-1); dg.assign(A.r,-1); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++){ long d=ref::deg(A.at(i,j)); if(d>=0&&(ind[i]<0||d+s[j]>=dg[i]+s[ind[i]])){ ind[i]=j; dg[i]=d; } } }
inline CMat rlmat(const PMat&A,const VL&s){ VL d=rrdeg(A,s); CMat L(A.r,A.c); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++){ long e=d[i]-s[j]; L.at(i,j)=ref::coef(A.at(i,j),e); } return L; }
inline bool f_reduced(const PMat&A,const VL&s){ return ref::crank(rlmat(A,s))==A.r; }
inline bool f_weak(const PMat&A,const VL&s){ VL i,d; rpiv(A,s,i,d); std::sort(i.begin(),i.end()); for(size_t k=0;k<i.size();k++) if(i[k]<0||(k&&i[k]==i[k-1])) return false; return true; }
inline bool f_ord(const PMat&A,const VL&s){ VL i,d; rpiv(A,s,i,d); for(size_t k=0;k<i.size();k++) if(i[k]<0||(k&&i[k]<=i[k-1])) return false; return true; }
inline bool f_popov(const PMat&A,const VL&s){ if(!f_ord(A,s)) return false; VL ind,dg; rpiv(A,s,ind,dg); for(long i=0;i<A.r;i++){ if(A.at(i,ind[i])[dg[i]]!=1%ref::P) return false; for(long k=0;k<A.r;k++) if(k!=i&&ref::deg(A.at(k,ind[i]))>=dg[i]) return false; } return true; }
inline bool f_form(int form,const PMat&A,const VL&s){ switch(form){ case 0: return true; case 1: return f_reduced(A,s); case 2: return f_weak(A,s); case 3: return f_ord(A,s); default: return f_popov(A,s); } }
inline int f_best(const PMat&A,const VL&s){ for(int f=4;f>=1;f--) if(f_form(f,A,s)) return f; return 0; }
inline const char*fname(int f){ static const char*n[]={"none","reduced","weak Popov","ordered weak Popov","Popov"}; return n[f]; }
inline VL gen_shift(Gen&g,long n,long amp){ VL s(n,0); switch(g.draw(8)){ case 0: case 1: break; case 2: for(auto&x:s) x=g.range(-2,2); break; case 3: for(long i=0;i<n;i++) s[i]=i*(1+(long)(amp>3?g.draw(0)+amp/2:amp)); break; case 4: for(long i=0;i<n;i++) s[i]=(n-1-i)*(1+amp); break; case 5: { long o=g.range(-1000,1000); for(auto&x:s) x=o+g.range(0,amp); break; } case 6: { Rng q(g.seed32()); for(auto&x:s) x=(long)q.below(2*amp+3)-amp-1; break; } default: { for(long i=0;i<n;i++) s[i]=(i<n/2)?0:amp; } } return s; }
// square-or-wide matrix in s-Popov form with r rows (r<=c), pivot degrees below dmax
inline PMat gen_popov(Gen&g,long r,long c,const VL&s,long dmax,bool canonical){ PMat A(r,c); Rng q(g.seed32()); std::vector<long> cols(c); for(long i=0;i<c;i++) cols[i]=i; for(long i=0;i<c;i++) std::swap(cols[i],cols[i+q.below(c-i)]); cols.resize(r); std::sort(cols.begin(),cols.end()); VL pd(r); for(auto&x:pd) x=(long)q.below(dmax+1);
  for(long i=0;i<r;i++){ long pc=cols[i]; long top=pd[i]+s[pc]; for(long j=0;j<c;j++){ long mx=j<pc?top-s[j]:top-s[j]-1; if(j==pc) mx=pd[i]-1; if(canonical) for(long k=0;k<r;k++) if(k!=i&&cols[k]==j) mx=std::min(mx,pd[k]-1); if(mx>200) mx=200; Poly p; if(mx>=0&&q.below(8)){ p.resize(mx+1); for(auto&x:p) x=q()%ref::P; } if(j==pc){ p.resize(pd[i]); p.push_back(canonical?1%ref::P:1+q()%(ref::P-1)); } ref::norm(p); A.at(i,j)=p; } } return A; }
