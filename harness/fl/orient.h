// the four orientations of polynomial matrix forms, all brought back to row-wise lower
#pragma once
#include "forms.h"
#include "pmlflint.h"
static const orientation_t ORS[4]={ROW_LOWER,ROW_UPPER,COL_UPPER,COL_LOWER};
inline const char*oname(orientation_t o){ return o==ROW_LOWER?"row-lower":o==ROW_UPPER?"row-upper":o==COL_UPPER?"col-upper":"col-lower"; }
inline bool isrow(orientation_t o){ return o==ROW_LOWER||o==ROW_UPPER; }
inline bool isplain(orientation_t o){ return o==ROW_LOWER||o==COL_UPPER; }
inline PMat mrev(const PMat&A){ PMat B(A.r,A.c); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) B.at(i,j)=A.at(A.r-1-i,A.c-1-j); return B; }
inline CMat crev(const CMat&A){ CMat B(A.r,A.c); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) B.at(i,j)=A.at(A.r-1-i,A.c-1-j); return B; }
inline VL vrev(VL v){ std::reverse(v.begin(),v.end()); return v; }
// the row-lower problem equivalent to (A,s,o)
inline PMat tolow(const PMat&A,orientation_t o){ PMat B=isrow(o)?A:ref::mtr(A); return isplain(o)?B:mrev(B); }
inline PMat fromlow(const PMat&A,orientation_t o){ PMat B=isplain(o)?A:mrev(A); return isrow(o)?B:ref::mtr(B); }
inline VL slow(const VL&s,orientation_t o){ return isplain(o)?s:vrev(s); }
inline VL pivlow(const VL&ind,long len,orientation_t o){ if(isplain(o)) return ind; VL r=vrev(ind); for(auto&x:r) x=len-1-x; return r; }
inline void r_ech(const PMat&A,VL&ind,VL&dg){ ind.assign(A.r,-1); dg.assign(A.r,-1); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++) if(ref::deg(A.at(i,j))>=0){ ind[i]=j; dg[i]=ref::deg(A.at(i,j)); } }
// row-wise lower echelon: zero rows first, then strictly increasing rightmost nonzero entries
inline bool f_echelon(const PMat&A){ VL ind,dg; r_ech(A,ind,dg); bool nz=false; long last=-1; for(long x:ind){ if(x<0){ if(nz) return false; continue; } if(nz&&x<=last) return false; nz=true; last=x; } return true; }
inline bool f_hermite(const PMat&A){ if(!f_echelon(A)) return false; VL ind,dg; r_ech(A,ind,dg); for(long i=0;i<A.r;i++){ if(ind[i]<0) return false; if(A.at(i,ind[i])[dg[i]]!=1%ref::P) return false; for(long k=0;k<A.r;k++) if(k!=i&&ref::deg(A.at(k,ind[i]))>=dg[i]) return false; } return true; }
