// C42: text printed by flint-extras, captured and read back
#include "../orient.h"
#include <unistd.h>
#include <sys/mman.h>
#include "sagemath_extra.h"
#include "nmod_poly_mat_io.h"
const char*PROP_RULE="vectors, constant matrices, polynomials, polynomial matrices, degree and leading matrices (all shifts and orientations) and matrix polynomials of every size from empty up, with entries up to the largest modulus, are printed; the text is captured, parsed without regard to white space, and evaluated; non-trivial: at least two non-zero coefficients or entries";
std::vector<std::string> ASSUMPTIONS={"FLINT is not installed here: flint-extras is built from /repo against the small stand-in harness/fl/flint_shim.*, which prints single polynomials and matrices in FLINT's format","SageMath is not installed: integers are read modulo the modulus, polynomials as sums of products of integers and powers of the variable"};
std::vector<Known> KNOWN={};
struct Grab { int fd=-1,old=-1; Grab(){ fflush(stdout); old=dup(1); fd=memfd_create("io",0); if(old<0||fd<0) throw std::runtime_error("capture"); dup2(fd,1); } 
  std::string text(){ fflush(stdout); long n=lseek(fd,0,SEEK_END); std::string s(n,0); if(n&&pread(fd,&s[0],n,0)!=n) throw std::runtime_error("capture"); return s; }
  ~Grab(){ fflush(stdout); dup2(old,1); close(old); close(fd); } };
template<class F> static std::string grab(F f){ Grab g; f(); return g.text(); }
static std::string nows(const std::string&s){ std::string r; for(char c:s) if(!isspace((unsigned char)c)) r+=c; return r; }
typedef __int128 i128;
struct Rd { std::string s,w; size_t p=0; Rd(const std::string&t,const std::string&what):s(nows(t)),w(what){}
  [[noreturn]] void bad(const std::string&m){ FAIL(w+": printed text rejected, "+m+" at '"+s.substr(p,20)+"'"); }
  bool is(const std::string&t){ if(s.compare(p,t.size(),t)==0){ p+=t.size(); return true; } return false; }
  void need(const std::string&t){ if(!is(t)) bad("'"+t+"' expected"); }
  bool dig(){ return p<s.size()&&isdigit((unsigned char)s[p]); }
  i128 num(){ bool neg=is("-"); if(!dig()) bad("number expected"); i128 x=0; int n=0; while(dig()){ x=x*10+(s[p++]-'0'); if(++n>30) bad("number too long"); } return neg?-x:x; }
  long snum(){ i128 x=num(); if(x!=(i128)(long)x) bad("number out of range"); return (long)x; }
  u64 red(i128 x){ i128 r=x%(i128)ref::P; if(r<0) r+=ref::P; return (u64)r; }
  Poly factor(const std::string&v){ if(is("(")){ Poly a=expr(v); need(")"); return a; } if(dig()){ Poly a{red(num())}; ref::norm(a); return a; } need(v); long e=1; if(is("^")){ i128 x=num(); if(x<0||x>100000) bad("exponent"); e=(long)x; } Poly a(e+1,0); a[e]=1%ref::P; ref::norm(a); return a; }
  Poly term(const std::string&v){ Poly a=factor(v); while(is("*")) a=ref::pmul(a,factor(v)); return a; }
  Poly expr(const std::string&v){ Poly a; bool neg=is("-"); for(;;){ Poly t=term(v); a=neg?ref::psub(a,t):ref::padd(a,t); if(is("+")) neg=false; else if(is("-")) neg=true; else return a; } }
  void end(){ if(p!=s.size()) bad("trailing text"); } };
template<class F> static void rows(Rd&r,long m,long n,F entry){ r.need("["); for(long i=0;i<m;i++){ if(i) r.need(","); r.need("["); for(long j=0;j<n;j++){ if(j) r.need(","); entry(i,j); } r.need("]"); } r.need("]"); }
static const char*VARS[]={"x","y","t1","XX","z_2","x1x"};
static std::string ij(long i,long j){ return " at ("+std::to_string(i)+","+std::to_string(j)+")"; }
static void sage(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=g.size(0,6),k=g.size(0,6); c.note("shape",std::to_string(r)+"x"+std::to_string(k)); std::string v=VARS[g.draw(6)]; c.note("var",v);
  { long n=g.size(0,9); std::vector<slong> a(n); Rng q(g.seed32()); for(auto&x:a) x=(long)q()>>q.below(63); slong*p=(slong*)malloc(n*sizeof(slong)); std::copy(a.begin(),a.end(),p); std::string t=grab([&]{ slongvec_print_sagemath(p,n); }); free(p); Rd d(t,"slongvec_print_sagemath"); d.need("["); for(long i=0;i<n;i++){ if(i) d.need(","); CHECK(d.snum()==a[i],"slongvec_print_sagemath: wrong integer at "+std::to_string(i)); } d.need("]"); d.end(); }
  { CMat A=gen_cmat(g,r,k); if(g.coin(1,3)) for(auto&x:A.a) x=ref::P-1; FM M(g,A); std::string t=grab([&]{ nmod_mat_print_sagemath(M); }); M.kept("nmod_mat_print_sagemath"); Rd d(t,"nmod_mat_print_sagemath"); rows(d,r,k,[&](long i,long j){ CHECK(d.red(d.num())==A.at(i,j),"nmod_mat_print_sagemath: printed value is another element of the field"+ij(i,j)); }); d.end(); }
  { Poly a=gen_poly(g,g.size(0,30)); FP p(a); std::string t=grab([&]{ nmod_poly_print_sagemath(p,v.c_str()); }); Rd d(t,"nmod_poly_print_sagemath"); CHECK(ref::peq(d.expr(v),a),"nmod_poly_print_sagemath: another polynomial"); d.end(); }
  { PMat A=gen_pmat(g,r,k,g.size(0,8)); long nz=0; for(auto&e:A.a) for(u64 x:e) nz+=x!=0; NONTRIVIAL(c,nz>=2); FPM M(g,A); for(int pretty=0;pretty<2;pretty++){ std::string t=grab([&]{ pretty?nmod_poly_mat_print_pretty(M,v.c_str()):nmod_poly_mat_print_sagemath(M,v.c_str()); }),w=pretty?"nmod_poly_mat_print_pretty":"nmod_poly_mat_print_sagemath"; M.kept(w); Rd d(t,w); if(pretty){ d.need("<"); CHECK(d.num()==r,w+": number of rows"); d.need("x"); CHECK(d.num()==k,w+": number of columns"); size_t q=d.s.find('>',d.p); if(q==std::string::npos) d.bad("no header"); CHECK(d.s.substr(d.p,q-d.p).find("["+v+"]")!=std::string::npos,w+": variable not in the header"); d.p=q+1; } rows(d,r,k,[&](long i,long j){ CHECK(ref::peq(d.expr(v),A.at(i,j)),w+": another polynomial"+ij(i,j)); }); d.end(); } } }
// constant matrices are printed by FLINT itself; the same call on a copy of the expected matrix gives the expected text
static std::string own(const CMat&A,bool pretty){ FM M(A); return grab([&]{ pretty?nmod_mat_print_pretty(M):nmod_mat_print(M); }); }
static void tables(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=g.size(0,6),k=g.size(0,6); PMat L=gen_pmat(g,r,k,1+g.draw(6)); long nz=0; for(auto&e:L.a) for(u64 x:e) nz+=x!=0; NONTRIVIAL(c,nz>=2); orientation_t o=ORS[g.draw(4)]; c.note("orient",oname(o)); VL s0=gen_shift(g,k,5); PMat A=fromlow(L,o); VL sh=isplain(o)?s0:vrev(s0); bool ns=g.coin(1,4); if(ns) sh.assign(sh.size(),0); c.note("shape",std::to_string(A.r)+"x"+std::to_string(A.c)); c.note("shift",ns?"none":vstr(sh));
  FPM M(g,A); bool row=isrow(o); static slong dummy[1]; const slong*sp=ns?nullptr:sh.empty()?dummy:sh.data();
  for(int shifted=0;shifted<2;shifted++){ std::string w=shifted?"nmod_poly_mat_degree_matrix_shifted_print_pretty":"nmod_poly_mat_degree_matrix_print_pretty"; std::string t=grab([&]{ shifted?nmod_poly_mat_degree_matrix_shifted_print_pretty(M,sp,o):nmod_poly_mat_degree_matrix_print_pretty(M); }); M.kept(w); for(char&x:t) if(x=='['||x==']'||x==',') x=' '; std::istringstream is(t); for(long i=0;i<A.r;i++) for(long j=0;j<A.c;j++){ long d=ref::deg(A.at(i,j)),want=d; if(shifted){ long e=row?sh[j]:sh[i]; want=d+e; } long got; CHECK(bool(is>>got),w+": too few numbers"); CHECK(got==want,w+": "+std::to_string(got)+" instead of "+std::to_string(want)+ij(i,j)); } std::string rest; CHECK(!(is>>rest),w+": trailing text "+rest); }
  { std::string w="nmod_poly_mat_leading_matrix_print_pretty"; std::string t=grab([&]{ nmod_poly_mat_leading_matrix_print_pretty(M,sp,o); }); M.kept(w); CMat X(A.r,A.c); long lines=row?A.r:A.c,across=row?A.c:A.r; for(long i=0;i<lines;i++){ long mx=0; bool any=false; for(long j=0;j<across;j++){ const Poly&p=row?A.at(i,j):A.at(j,i); if(ref::deg(p)<0) continue; long d=ref::deg(p)+sh[j]; if(!any||d>mx) mx=d; any=true; } for(long j=0;j<across;j++){ const Poly&p=row?A.at(i,j):A.at(j,i); if(ref::deg(p)>=0&&ref::deg(p)+sh[j]==mx){ (row?X.at(i,j):X.at(j,i))=p.back(); } } } CHECK(nows(t)==nows(own(X,true)),w+": another matrix, "+t.substr(0,300)); } }
static void matpoly(Gen&g,Case&c){ Field f=gen_field(g); note_field(c,f); long r=1+(long)g.draw(4),k=1+(long)g.draw(4); PMat A=gen_pmat(g,r,k,g.size(0,6)); long len=ref::mdeg(A)+1; NONTRIVIAL(c,len>=2); c.note("shape",std::to_string(r)+"x"+std::to_string(k)); c.note("length",len); nmod_mat_poly_t m; nmod_mat_poly_init(m,r,k,ref::P); FPM M(g,A); nmod_mat_poly_set_from_poly_mat(m,M); std::string t=grab([&]{ nmod_mat_poly_print(m); }),u=grab([&]{ nmod_mat_poly_print_pretty(m); }); std::string e; for(long d=0;d<len;d++) e+=own(ref::mcoef(A,d),false); CHECK(nows(t)==nows(e),"nmod_mat_poly_print: not the sequence of coefficients: "+t.substr(0,300));
  Rd d(u,"nmod_mat_poly_print_pretty"); d.need("r:"); CHECK(d.num()==r,"nmod_mat_poly_print_pretty: number of rows"); d.need(",c:"); CHECK(d.num()==k,"nmod_mat_poly_print_pretty: number of columns"); d.need(",len:"); CHECK(d.num()==len,"nmod_mat_poly_print_pretty: length"); d.need(",mod:"); { i128 x=d.num(); CHECK(x==(i128)ref::P,"nmod_mat_poly_print_pretty: wrong modulus"); } for(long i=0;i<len;i++){ d.need("coeff"); CHECK(d.num()==i,"nmod_mat_poly_print_pretty: index of a coefficient"); d.need(":"); d.need(nows(own(ref::mcoef(A,i),true))); } d.end(); nmod_mat_poly_clear(m); }
std::vector<Sub> SUBS={{"sage",sage,100000,2000000,400},{"tables",tables,100000,2000000,400},{"matpoly",matpoly,60000,1000000,300}};
