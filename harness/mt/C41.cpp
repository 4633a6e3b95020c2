// C41: sessions (each with its own modulus) do not disturb one another: run in parallel threads, interleaved in one thread, or with NTL's thread pool on,
// every operation still returns what it returns alone.  The operations and their oracles are those of the other properties.
#include "h.h"
#include <thread>
#include <atomic>
#include <ucontext.h>
#include <sys/mman.h>
#include <NTL/ZZ.h>
#include <NTL/BasicThreadPool.h>
const char* PROP_RULE="(threads) two to six threads, each with its own modulus, thread-local random stream and list of operations, released together and repeated several rounds; (interleave) two to four sessions in one thread, switched (with the modulus saved and restored, as a caller would) at points drawn at random between their library calls; (pool) operations run while NTL's thread pool is active. Operations are the cases of the other properties, with their oracles. Non-trivial: at least two sessions reached a library result that was checked; (pool) the case itself is non-trivial.";
std::vector<std::string> ASSUMPTIONS={"an operation that fails when run alone is left to its own property and not counted here","callers give every thread its own modulus and switch moduli with zz_pContext, as NTL requires","NTL itself is thread safe as installed (NTL_THREADS)"};
std::vector<Known> KNOWN={};
#define X(p) extern std::vector<Sub> SUBS_##p;
MT_LIST
#undef X
struct Op { const char*prop; const Sub*sub; };
static const std::vector<Op>& ops(){ static std::vector<Op> L; if(L.empty()){
#define X(p) for(auto&s:SUBS_##p) L.push_back({#p,&s});
  MT_LIST
#undef X
  userfft(); } return L; }
extern thread_local void(*mt_yield)(); extern bool mt_replay;
struct Job { const Op*op; u64 seed; };
static std::string jname(const Job&j){ return std::string(j.op->prop)+"/"+j.op->sub->name+"#"+std::to_string(j.seed); }
// 0 fine, 1 failed, 2 discarded
static int run1(const Job&j,std::string&msg,bool&nt){ Gen g; g.s=j.seed*0x9e3779b97f4a7c15ULL+1; Case c; NTL::SetSeed(NTL::to_ZZ((long)(j.seed&0xffff)+1));
  try{ j.op->sub->fn(g,c); nt=c.nontrivial; if((u64)NTL::zz_p::modulus()!=ref::P){ msg="the modulus of the session was changed"; return 1; } return 0; }
  catch(Failure&f){ msg=f.msg; return 1; } catch(Discard&){ return 2; } catch(std::exception&e){ msg=std::string("exception: ")+e.what(); return 1; } }
// a failing operation counts only if it is fine on its own
static void verdict(const Job&j,const std::string&msg,const char*how){ auto y=mt_yield; mt_yield=nullptr; std::string m; bool nt; bool alone=run1(j,m,nt)==1; mt_yield=y; if(alone) throw Discard(); FAIL(std::string(how)+": "+jname(j)+" fails ("+msg+") although it is right when run alone"); }
static const Op* pick(Gen&g){ auto&L=ops(); return &L[g.draw(L.size())]; }
static std::vector<std::vector<Job>> plan(Gen&g,Case&c,long k,long per){ std::vector<std::vector<Job>> P(k); bool same=!g.coin(1,3); const Op*o=pick(g); for(long i=0;i<k;i++){ if(!same&&i) o=pick(g); long n=1+(long)g.draw(per); for(long t=0;t<n;t++){ P[i].push_back({o,g.seed32()}); } } c.tag(same?"same-operation":"mixed"); for(auto&v:P) c.note("session",jname(v[0])+"+"+std::to_string(v.size()-1)); c.tag(o->prop); return P; }
static void t_threads(Gen&g,Case&c){ long k=2+(long)g.draw(5); auto P=plan(g,c,k,3); NTL::zz_p::init(3); ref::P=3; const int R=mt_replay?15:3;
  std::atomic<int> ready(0),stop(0); std::vector<std::string> msg(k); std::vector<const Job*> bad(k,nullptr); std::vector<char> nt(k,0); std::vector<std::thread> T;
  for(long i=0;i<k;i++) T.emplace_back([&,i]{ ready++; while(ready<k) sched_yield(); for(int r=0;r<R&&!stop;r++) for(auto&j:P[i]){ bool n=false; std::string m; int rc=run1(j,m,n); nt[i]|=n; if(rc==1){ msg[i]=m; bad[i]=&j; stop=1; return; } } });
  for(auto&t:T) t.join(); int cnt=0; for(char x:nt) cnt+=x; NONTRIVIAL(c,cnt>=2);
  bool disc=false; for(long i=0;i<k;i++) if(bad[i]){ try{ verdict(*bad[i],msg[i],"parallel threads"); }catch(Discard&){ disc=true; } } if(disc) throw Discard(); NTL::zz_p::init(3); ref::P=3; }
// ---- coroutines
extern "C" void* __cxa_get_globals();
struct Co { ucontext_t uc; void*stk=nullptr; NTL::zz_pContext ctx; u64 P=3; void*eh0=nullptr; unsigned eh1=0; const std::vector<Job>*jobs=nullptr; bool done=false; int rc=0; bool nt=false; std::string msg; const Job*bad=nullptr; };
static const size_t STK=(size_t)64<<20;
static std::vector<Co>*cos_=nullptr; static ucontext_t mainuc; static int cur=-1; static Rng*sched=nullptr; static u64 rate=1;
static void co_main(int i){ Co&k=(*cos_)[i]; for(auto&j:*k.jobs){ bool n=false; std::string m; int rc=run1(j,m,n); k.nt|=n; if(rc==1){ k.rc=1; k.msg=m; k.bad=&j; break; } } k.done=true; }
static void co_switch(int to){ Co&a=(*cos_)[cur]; a.ctx.save(); a.P=ref::P; void**e=(void**)__cxa_get_globals(); a.eh0=e[0]; a.eh1=*(unsigned*)(e+1); int from=cur; cur=to; Co&b=(*cos_)[to]; e[0]=b.eh0; *(unsigned*)(e+1)=b.eh1; b.ctx.restore(); ref::P=b.P; swapcontext(&(*cos_)[from].uc,&b.uc); }
static void hook(){ if(sched->below(rate)) return; std::vector<int> live; for(int i=0;i<(int)cos_->size();i++) if(i!=cur&&!(*cos_)[i].done) live.push_back(i); if(!live.empty()) co_switch(live[sched->below(live.size())]); }
static void co_entry(int i){ co_main(i); // finished: hand over to another live session, or back to the main context
  for(;;){ std::vector<int> live; for(int t=0;t<(int)cos_->size();t++) if(!(*cos_)[t].done) live.push_back(t); if(live.empty()) setcontext(&mainuc); co_switch(live[sched->below(live.size())]); } }
static void t_inter(Gen&g,Case&c){ long k=2+(long)g.draw(3); rate=1+g.draw(4); auto P=plan(g,c,k,2); Rng q(g.seed32()); std::vector<Co> C(k); NTL::zz_p::init(3); ref::P=3; cos_=&C; sched=&q;
  for(long i=0;i<k;i++){ C[i].stk=mmap(0,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); C[i].jobs=&P[i]; C[i].ctx.save(); getcontext(&C[i].uc); C[i].uc.uc_stack.ss_sp=C[i].stk; C[i].uc.uc_stack.ss_size=STK; C[i].uc.uc_link=nullptr; makecontext(&C[i].uc,(void(*)())co_entry,1,(int)i); }
  void**e=(void**)__cxa_get_globals(); void*s0=e[0]; unsigned s1=*(unsigned*)(e+1); e[0]=nullptr; *(unsigned*)(e+1)=0; cur=0; mt_yield=hook; volatile bool back=false; getcontext(&mainuc); if(!back){ back=true; setcontext(&C[0].uc); }
  mt_yield=nullptr; e=(void**)__cxa_get_globals(); e[0]=s0; *(unsigned*)(e+1)=s1; for(auto&x:C) munmap(x.stk,STK); int cnt=0; for(auto&x:C) cnt+=x.nt; NONTRIVIAL(c,cnt>=2);
  bool disc=false; for(auto&x:C) if(x.rc==1){ try{ verdict(*x.bad,x.msg,"interleaved sessions"); }catch(Discard&){ disc=true; } } if(disc) throw Discard(); NTL::zz_p::init(3); ref::P=3; }
static void t_pool(Gen&g,Case&c){ long k=2+(long)g.draw(4),n=1+(long)g.draw(2); c.note("pool",k); std::vector<Job> J; for(long i=0;i<n;i++){ J.push_back({pick(g),g.seed32()}); c.note("op",jname(J.back())); }
  NTL::SetNumThreads(k); std::string m; const Job*bad=nullptr; for(auto&j:J){ bool nt=false; int rc=run1(j,m,nt); if(nt) c.nontrivial=true; if(rc==1){ bad=&j; break; } } NTL::SetNumThreads(1); if(bad) verdict(*bad,m,"with NTL's thread pool"); }
std::vector<Sub> SUBS={{"threads",t_threads,3000,60000,20},{"interleave",t_inter,6000,120000,20},{"pool",t_pool,1500,30000,20}};
