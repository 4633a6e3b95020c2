// C29: printed Sage and Magma text, read back by an evaluator of the two syntaxes
#include "pm.h"
#include <climits>
#include <NTL/ZZX.h>
#include <NTL/vec_ZZ.h>
#include "sage_output.h"
#include "magma_output.h"
#include "lzz_pXY.h"
#include "bases.h"
const char* PROP_RULE="programs made of the ring initialisations, ring declarations for other variables and one to six assignments or printed expressions (every printable type: vectors of ZZ, long, unsigned long, zz_p; constant matrices; ZZX, zz_pX, vectors and matrices of zz_pX; default or named variable) are printed, then parsed and evaluated by a small interpreter of the Sage and Magma syntax which knows only the names declared in that text; each value must have the type, ring, variable, shape and coefficients of the printed object; bivariate polynomials are printed and read back with NTL; non-trivial: an object with at least two non-zero coefficients or entries";
std::vector<std::string> ASSUMPTIONS={"Sage and Magma themselves are not installed: the interpreter covers the expressions the library prints (integers, lists, sums, products, powers, ring conversions, Matrix) and rejects everything else","variable names are identifiers declared before use","the shape of a matrix without rows or columns is not checked (a list of lists cannot carry it), only that the text is well formed"};
std::vector<Known> KNOWN={};
struct R { std::string var; u64 base; bool operator==(const R&o)const{ return var==o.var&&base==o.base; } };
struct V { int k=0; ZZ n; R r; std::vector<ZZ> c; std::vector<V> l; u64 base=0; };   // k: 0 int, 1 poly, 2 list, 3 matrix, 4 polynomial ring, 5 base ring
enum { INT,POL,LST,MTX,RNG,BAS };
[[noreturn]] static void bad(const std::string&m){ FAIL("printed text rejected: "+m); }
static ZZ redz(const ZZ&a,u64 p){ if(!p) return a; ZZ r=a%to_ZZ((unsigned long)p); if(r<0) r+=to_ZZ((unsigned long)p); return r; }
static V mkp(std::vector<ZZ> c,const R&r){ for(auto&x:c) x=redz(x,r.base); while(!c.empty()&&IsZero(c.back())) c.pop_back(); V v; v.k=POL; v.r=r; v.c=c; return v; }
static V mki(const ZZ&n){ V v; v.n=n; return v; }
struct Interp { bool magma; std::string s; size_t p=0; std::map<std::string,V> env;
  void ws(){ while(p<s.size()&&(s[p]==' '||s[p]=='\t')) p++; }
  bool is(const std::string&t){ ws(); if(s.compare(p,t.size(),t)==0){ p+=t.size(); return true; } return false; }
  void need(const std::string&t){ if(!is(t)) bad("'"+t+"' expected at '"+s.substr(p,30)+"'"); }
  std::string ident(){ ws(); size_t q=p; if(p<s.size()&&(isalpha(s[p])||s[p]=='_')) while(p<s.size()&&(isalnum(s[p])||s[p]=='_')) p++; return s.substr(q,p-q); }
  V coerce(const V&r,const V&a){ if(r.k==BAS){ if(a.k!=INT) bad("conversion of a non-integer"); return mki(redz(a.n,r.base)); } if(r.k!=RNG) bad("not a ring"); if(a.k==INT) return mkp({a.n},r.r); if(a.k==POL){ if(!(a.r==r.r)) bad("polynomial in "+a.r.var+" converted to another ring"); return a; } if(a.k==LST){ std::vector<ZZ> c; for(auto&e:a.l){ if(e.k!=INT) bad("coefficient list"); c.push_back(e.n); } return mkp(c,r.r); } bad("conversion"); }
  V ring(const std::string&nm){ V v; v.k=BAS; if(nm=="GF"){ need("("); V a=expr(); need(")"); if(a.k!=INT||a.n<2) bad("GF"); conv(v.base,a.n); return v; } need("("); need(")"); v.base=0; return v; }
  V list(const char*c){ V v; v.k=LST; if(is(c)) return v; do v.l.push_back(expr()); while(is(",")); need(c); return v; }
  V matrix(){ need("("); V a=expr(); u64 base=0; bool hb=false; if(is(",")){ if(a.k!=BAS) bad("Matrix base ring"); base=a.base; hb=true; a=expr(); } need(")"); if(a.k!=LST) bad("Matrix of a non-list"); V m; m.k=MTX; m.base=base; size_t w=0; for(size_t i=0;i<a.l.size();i++){ V row=a.l[i]; if(row.k!=LST) bad("Matrix row"); if(i==0) w=row.l.size(); if(row.l.size()!=w) bad("rows of different lengths"); for(auto&e:row.l){ if(hb){ if(e.k!=INT) bad("Matrix entry"); e.n=redz(e.n,base); } else if(e.k!=POL) bad("Matrix entry is not a polynomial"); } m.l.push_back(row); } return m; }
  V atom(){ ws(); if(p>=s.size()) bad("unexpected end"); if(isdigit(s[p])){ size_t q=p; while(p<s.size()&&isdigit(s[p])) p++; ZZ n; conv(n,s.substr(q,p-q).c_str()); return mki(n); } if(is("(")){ V v=expr(); need(")"); return v; } if(is("[")) return list("]"); if(is("-")){ V v=power(); if(v.k==INT){ v.n=-v.n; return v; } if(v.k==POL){ for(auto&x:v.c) x=-x; return mkp(v.c,v.r); } bad("negation"); }
    std::string id=ident(); if(id.empty()) bad("unexpected '"+s.substr(p,20)+"'"); if(id=="GF"||id=="Integers") return ring(id); if(id=="Matrix"||id=="matrix") return matrix(); if(magma&&id=="Parent"){ need("("); V a=expr(); need(")"); if(a.k!=POL) bad("Parent of a non-polynomial"); V r; r.k=RNG; r.r=a.r; return r; }
    if(id=="PolynomialRing"){ need("("); V a=expr(); need(")"); if(a.k!=BAS) bad("PolynomialRing"); V r; r.k=RNG; r.r={"?",a.base}; return r; }
    auto it=env.find(id); if(it==env.end()) bad("name '"+id+"' is not defined"); return it->second; }
  V post(){ V v=atom(); for(;;){ ws(); if(!magma&&p<s.size()&&s[p]=='('&&(v.k==RNG||v.k==BAS)){ p++; V a=expr(); need(")"); v=coerce(v,a); } else if(!magma&&s.compare(p,9,".parent()")==0){ p+=9; if(v.k!=POL) bad("parent of a non-polynomial"); V r; r.k=RNG; r.r=v.r; v=r; } else if(magma&&p<s.size()&&s[p]=='!'){ p++; V a=atom(); v=coerce(v,a); } else return v; } }
  V mulv(const V&a,const V&b){ if(a.k==INT&&b.k==INT) return mki(a.n*b.n); V x=a,y=b; if(x.k==INT&&y.k==POL) x=mkp({x.n},y.r); if(y.k==INT&&x.k==POL) y=mkp({y.n},x.r); if(x.k!=POL||y.k!=POL||!(x.r==y.r)) bad("product of incompatible values"); std::vector<ZZ> c(x.c.size()+y.c.size()); for(size_t i=0;i<x.c.size();i++) for(size_t j=0;j<y.c.size();j++) c[i+j]+=x.c[i]*y.c[j]; return mkp(c,x.r); }
  V addv(const V&a,const V&b,int sg){ if(a.k==INT&&b.k==INT) return mki(sg>0?a.n+b.n:a.n-b.n); V x=a,y=b; if(x.k==INT&&y.k==POL) x=mkp({x.n},y.r); if(y.k==INT&&x.k==POL) y=mkp({y.n},x.r); if(x.k!=POL||y.k!=POL||!(x.r==y.r)) bad("sum of incompatible values"); std::vector<ZZ> c=x.c; if(c.size()<y.c.size()) c.resize(y.c.size()); for(size_t i=0;i<y.c.size();i++){ if(sg>0) c[i]+=y.c[i]; else c[i]-=y.c[i]; } return mkp(c,x.r); }
  V power(){ V v=post(); if(is("^")){ V e=post(); if(e.k!=INT||e.n<0) bad("exponent"); long n; conv(n,e.n); if(v.k==POL&&v.c.size()==2&&IsZero(v.c[0])&&IsOne(v.c[1])){ std::vector<ZZ> c(n+1); c[n]=1; return mkp(c,v.r); } V r=v.k==POL?mkp({to_ZZ(1)},v.r):mki(to_ZZ(1)); for(long i=0;i<n;i++) r=mulv(r,v); return r; } return v; }
  V term(){ V v=power(); while(is("*")) v=mulv(v,power()); return v; }
  V expr(){ V v=term(); for(;;){ if(is("+")) v=addv(v,term(),1); else if(is("-")) v=addv(v,term(),-1); else return v; } }
  V whole(const std::string&t){ s=t; p=0; V v=expr(); ws(); if(p!=s.size()) bad("trailing '"+s.substr(p,20)+"'"); return v; }
  void stmt(const std::string&t){ s=t; p=0; std::string nm=ident(); if(nm.empty()) bad("statement '"+t.substr(0,20)+"'"); bool gen=false; std::string var; if(magma?is("<"):is(".<")){ gen=true; var=ident(); need(">"); } need(magma?":=":"="); V v=expr(); ws(); if(p!=s.size()) bad("trailing '"+s.substr(p,20)+"'"); if(gen){ if(v.k!=RNG) bad("generator of a non-ring"); v.r.var=var; env[var]=mkp({ZZ(),to_ZZ(1)},v.r); } env[nm]=v; }
  void prog(const std::string&t){ std::string cur; for(char ch:t){ if(ch=='\n'||(magma&&ch==';')){ bool blank=true; for(char x:cur) if(x!=' ') blank=false; if(magma&&ch=='\n'&&!blank) bad("statement without ';'"); if(!blank) stmt(cur); cur.clear(); } else cur+=ch; } for(char x:cur) if(x!=' ') bad("unterminated statement"); }
};
static V gz(const Poly&a,const std::string&var){ std::vector<ZZ> c; for(u64 x:a) c.push_back(to_ZZ((unsigned long)x)); return mkp(c,{var,ref::P}); }
static void same(const V&got,const V&ex,const std::string&w){ if(ex.k==MTX&&(ex.l.empty()||ex.l[0].l.empty())){ CHECK(got.k==MTX,w+": not a matrix"); for(auto&r:got.l) CHECK(r.l.empty(),w+": entries in an empty matrix"); return; } CHECK(got.k==ex.k,w+": value of kind "+std::to_string(got.k)+" instead of "+std::to_string(ex.k)); switch(ex.k){ case INT: CHECK(got.n==ex.n,w+": wrong integer"); break; case POL: CHECK(got.r==ex.r,w+": wrong polynomial ring (variable "+got.r.var+")"); CHECK(got.c==ex.c,w+": wrong coefficients"); break; default: if(ex.k==MTX) CHECK(got.base==ex.base,w+": wrong base ring"); CHECK(got.l.size()==ex.l.size(),w+": "+std::to_string(got.l.size())+" entries instead of "+std::to_string(ex.l.size())); for(size_t i=0;i<ex.l.size();i++) same(got.l[i],ex.l[i],w+"["+std::to_string(i)+"]"); } }
template<class F> static std::string capture(F f){ Quiet q; f(); return q.o.str(); }
static ZZ gen_zz(Gen&g){ Rng q(g.seed32()); switch(g.draw(4)){ case 0: return to_ZZ((long)g.draw(3))-1; case 1: return to_ZZ((long)(q()>>20)); case 2: return -to_ZZ((long)(q()>>2)); default: { ZZ z=to_ZZ((long)(q()>>2)); z=z*z*z; return q.below(2)?z:ZZ(-z); } } }
static void t_prog(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); bool mg=g.coin(1,2); c.note("magma",mg); c.tag(mg?"lang:magma":"lang:sage"); Interp I; I.magma=mg; std::string text; text+=capture([&]{ mg?magma_init():sage_init(); }); I.prog(text); CHECK(I.env["k"].k==BAS&&I.env["k"].base==ref::P,"init does not define k as GF(p)"); std::string t2=capture([&]{ mg?magma_init_X():sage_init_X(); }); I.prog(t2); CHECK(I.env["U"].k==RNG&&I.env["U"].r==(R{"x",ref::P}),"init_X does not define U as GF(p)[x]"); std::string t3=capture([&]{ mg?magma_init_ZZX():sage_init_ZZX(); }); I.prog(t3); CHECK(I.env["UZ"].k==RNG&&I.env["UZ"].r==(R{"XX",0}),"init_ZZX does not define UZ as Z[XX]"); CHECK(I.env["U"].k==RNG&&I.env["U"].r==(R{"x",ref::P}),"U lost after init_ZZX");
  const char*vs[]={"x","y","t1","XX","z_2"};
  long steps=1+(long)g.draw(6); for(long st=0;st<steps;st++){ long ty=(long)g.draw(9); bool asg=g.coin(1,2),named=g.coin(1,2); std::string var=vs[g.draw(5)],nm=std::string("res")+std::to_string(st); long n=g.size(0,8),m=g.size(0,5),d=g.size(0,g.coin(1,6)?40:6); std::string sh; V ex; std::string txt; bool nt=false;
    #define OUT(obj) txt=capture([&]{ if(mg){ asg?magma_assign(obj,nm):magma_output(obj); } else { asg?sage_assign(obj,nm):sage_output(obj); } })
    #define OUTV(obj) txt=capture([&]{ if(mg){ asg?magma_assign(obj,var,nm):magma_output(obj,var); } else { asg?sage_assign(obj,var,nm):sage_output(obj,var); } })
    Interp J=I; std::string w; ex.k=LST;
    switch(ty){
     case 0: { w="vector of ZZ"; Vec<ZZ> v; for(long i=0;i<n;i++){ v.append(gen_zz(g)); ex.l.push_back(mki(v[i])); } nt=n>1; OUT(v); break; }
     case 1: { w="vector of long"; Vec<long> v; for(long i=0;i<n;i++){ Rng q(g.seed32()); long x=q.below(4)==0?LONG_MIN:(long)q()>>q.below(60); v.append(x); ex.l.push_back(mki(to_ZZ(x))); } nt=n>1; OUT(v); break; }
     case 2: { w="vector of unsigned long"; Vec<unsigned long> v; for(long i=0;i<n;i++){ Rng q(g.seed32()); unsigned long x=q()>>q.below(60); v.append(x); ex.l.push_back(mki(to_ZZ(x))); } nt=n>1; OUT(v); break; }
     case 3: { w="vector of zz_p"; ref::Vec a=gen_list(g,n); for(u64 x:a) ex.l.push_back(mki(to_ZZ((unsigned long)x))); nt=n>1; Vec<zz_p> v=putv(a); OUT(v); break; }
     case 4: { w="constant matrix"; CMat a=gen_cmat(g,m,n); ex.k=MTX; ex.base=ref::P; for(long i=0;i<m;i++){ V r; r.k=LST; for(long j=0;j<n;j++) r.l.push_back(mki(to_ZZ((unsigned long)a.at(i,j)))); ex.l.push_back(r); } nt=m*n>1; Mat<zz_p> v=put(a); OUT(v); break; }
     case 5: { w="ZZX"; ZZX v; std::vector<ZZ> cf(d); for(long i=0;i<d;i++){ cf[i]=g.coin(1,3)?ZZ():gen_zz(g); SetCoeff(v,i,cf[i]); } if(!named) var="XX"; else J.env[var]=mkp({ZZ(),to_ZZ(1)},{var,0}); ex=mkp(cf,{var,0}); nt=d>1; if(named) OUTV(v); else OUT(v); break; }
     case 6: { w="zz_pX"; Poly a=gen_poly(g,d); if(!named) var="x"; else J.env[var]=mkp({ZZ(),to_ZZ(1)},{var,ref::P}); ex=gz(a,var); nt=d>1; zz_pX v=put(a); if(named) OUTV(v); else OUT(v); break; }
     case 7: { w="vector of zz_pX"; if(!named) var="x"; else J.env[var]=mkp({ZZ(),to_ZZ(1)},{var,ref::P}); std::vector<Poly> a; for(long i=0;i<n;i++){ a.push_back(gen_poly(g,d)); ex.l.push_back(gz(a[i],var)); } nt=n>1; Vec<zz_pX> v=putpv(a); if(named) OUTV(v); else OUT(v); break; }
     default: { w="matrix of zz_pX"; if(!named) var="x"; else J.env[var]=mkp({ZZ(),to_ZZ(1)},{var,ref::P}); PMat a=gen_pmat(g,m,n,d); ex.k=MTX; for(long i=0;i<m;i++){ V r; r.k=LST; for(long j=0;j<n;j++) r.l.push_back(gz(a.at(i,j),var)); ex.l.push_back(r); } nt=m*n>1; Mat<zz_pX> v=put(a); if(named) OUTV(v); else OUT(v); } }
    w+=asg?" assigned":" printed"; if(ty>=5&&named) w+=" with variable "+var; c.note("obj",w); NONTRIVIAL(c,nt); c.tag("type:"+std::to_string(ty));
    if(asg){ J.prog(txt); CHECK(J.env.count(nm),w+": name not assigned in '"+txt.substr(0,60)+"'"); same(J.env[nm],ex,w); I.env[nm]=J.env[nm]; } else same(J.whole(txt),ex,w); } }
static void t_xy(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long dy=g.size(0,8),dx=g.size(0,8); std::vector<Poly> a; for(long i=0;i<dy;i++) a.push_back(gen_poly(g,dx)); if(dy>0&&ref::deg(a.back())<0) a.back()=Poly{1%ref::P}; NONTRIVIAL(c,dy>1&&dx>1); zz_pXY F(putpv(a)); std::ostringstream o; o<<F; std::istringstream in(o.str()); Vec<zz_pX> v; in>>v; CHECK((bool)in,"bivariate polynomial not readable"); auto b=get(v); CHECK(b.size()==a.size(),"bivariate polynomial: length"); for(size_t i=0;i<a.size();i++) CHECK(ref::peq(a[i],b[i]),"bivariate polynomial read back differently"); }
std::vector<Sub> SUBS={{"programs",t_prog,60000,1200000,100},{"bivariate",t_xy,10000,100000,100}};
