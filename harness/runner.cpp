#include "h.h"
#ifndef PML_FLINT
#include <NTL/ZZ.h>
#define LIB_SEED(n) NTL::SetSeed(NTL::to_ZZ((long)(n)+1))
#define LIB_MOD ((u64)NTL::zz_p::modulus())
#else
#define LIB_SEED(n) lib_seed(n)
#define LIB_MOD (ref::P)
extern "C" long flint_shim_live;
#endif
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#else
#define VALGRIND_COUNT_ERRORS 0
#endif
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <set>
#include <unordered_set>
#include <chrono>
namespace ref { REF_TLS u64 P=2; }
#ifdef PML_MT
thread_local void(*mt_yield)()=nullptr;
#endif
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const size_t LOGCAP=1<<15;
struct Shm { size_t loglen; u64 log[LOGCAP]; long idx; long done; char msg[2000]; char desc[1500]; };
static Shm*newshm(){ return (Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
static double case_cpu=40; static bool memonly=false;
static u64 hash3(u64 a,u64 b,u64 c){ u64 s=a; u64 r=splitmix(s); s^=b*0x9e3779b97f4a7c15ULL; r^=splitmix(s); s^=c*0xc2b2ae3d27d4eb4fULL; return r^splitmix(s); }
static u64 strhash(const char*t){ u64 h=1469598103934665603ULL; for(;*t;t++) h=(h^(unsigned char)*t)*1099511628211ULL; return h; }
static void arm(){ itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=(long)case_cpu; setitimer(ITIMER_PROF,&t,0); signal(SIGPROF,SIG_DFL); }
static void disarm(){ itimerval t; memset(&t,0,sizeof t); setitimer(ITIMER_PROF,&t,0); }
static std::string jesc(const std::string&x){ std::string o; for(unsigned char c:x){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; } return o; }
// runs one case; returns 0 ok, 1 failed, 2 discarded
static int run_case(const Sub&sb,Gen&g,Case&c,Shm*sh,std::string&msg){
  g.log=sh->log; g.logcap=LOGCAP; g.loglen=&sh->loglen; sh->loglen=0; sh->msg[0]=0; sh->desc[0]=0; c.live=sh->desc; c.livecap=sizeof(sh->desc);
  u64 ns=g.draw(1<<16); LIB_SEED(ns); arm(); int rc=0;
#ifdef PML_FLINT
  long live=flint_shim_live;
#endif
  try{ sb.fn(g,c); if(LIB_MOD!=ref::P) FAIL("the current modulus was changed by a call");
#ifdef PML_FLINT
    if(memonly&&!c.thrown&&flint_shim_live!=live) FAIL("memory not given back by the calls of this case: blocks modified by "+std::to_string(flint_shim_live-live));
#endif
  }
  catch(Failure&f){ rc=1; msg=f.msg;
    if(memonly&&msg.find("modulus was changed")==std::string::npos&&msg.find("modified")==std::string::npos){ rc=0; if(LIB_MOD!=ref::P){ rc=1; msg="the current modulus was changed by a call"; } } } // wrong values are the other properties' business
  catch(Discard&){ rc=2; }
  catch(std::exception&e){ rc=1; msg=std::string("exception: ")+e.what(); }
  if(rc!=1&&VALGRIND_COUNT_ERRORS>0){ rc=1; msg="memory checker: use of uninitialised or invalid memory"; }
  disarm(); strncpy(sh->desc,c.desc.c_str(),sizeof(sh->desc)-1); if(rc==1) strncpy(sh->msg,msg.c_str(),sizeof(sh->msg)-1); return rc; }
static void limits(){
#ifndef PML_SAN
  rlimit l; l.rlim_cur=l.rlim_max=(rlim_t)3500<<20; setrlimit(RLIMIT_AS,&l);
#endif
  rlimit z; z.rlim_cur=z.rlim_max=0; setrlimit(RLIMIT_CORE,&z); }
static void mute(int keep_err){ int n=open("/dev/null",O_WRONLY); dup2(n,1); if(!keep_err) dup2(n,2); close(n); }
// run a choice list in a fresh child. true = fails
struct Res { bool fail=false; std::string msg; std::string desc; std::vector<u64> out; };
static Res run_child(const Sub&sb,const std::vector<u64>*choices,u64 seed,bool verbose=false){
  static Shm*sh=newshm(); sh->loglen=0; sh->msg[0]=0; sh->desc[0]=0; fflush(0); pid_t p=fork();
  if(p==0){ limits(); if(!verbose) mute(0); Gen g; if(choices){ g.replay=true; g.in=*choices; } else g.s=seed; Case c; c.verbose=verbose; std::string m; int rc=run_case(sb,g,c,sh,m); _exit(rc==1?17:0); }
  int st; waitpid(p,&st,0); Res r; r.fail=!(WIFEXITED(st)&&WEXITSTATUS(st)==0); r.msg=sh->msg; r.desc=sh->desc; r.out.assign(sh->log,sh->log+std::min(sh->loglen,LOGCAP));
  if(r.fail&&!(WIFEXITED(st)&&WEXITSTATUS(st)==17)){ char b[200]; if(WIFSIGNALED(st)) snprintf(b,200,"process killed by signal %d (%s)",WTERMSIG(st),WTERMSIG(st)==SIGPROF?"no termination within the CPU limit":strsignal(WTERMSIG(st))); else snprintf(b,200,"process exited with status %d (sanitizer report or library exit)",WEXITSTATUS(st)); r.msg=b; }
  return r; }
static bool run_batch_child(const Sub&sb,u64 seed,long lo,long hi,std::string&msg){ // replays cases lo..hi in one process
  static Shm*sh=newshm(); fflush(0); pid_t p=fork();
  if(p==0){ limits(); mute(0); for(long i=lo;i<=hi;i++){ Gen g; g.s=hash3(seed,strhash(sb.name),i); Case c; std::string m; if(run_case(sb,g,c,sh,m)==1) _exit(17); } _exit(0); }
  int st; waitpid(p,&st,0); msg=sh->msg; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ if(WIFSIGNALED(st)) msg="process killed by signal "+std::to_string(WTERMSIG(st)); return true; } return false; }
static std::vector<u64> shrink(const Sub&sb,std::vector<u64> cur,double deadline,long&tries){
  auto bad=[&](const std::vector<u64>&c){ tries++; Res r=run_child(sb,&c,0); return r.fail; };
  bool prog=true; while(prog&&now()<deadline){ prog=false;
    for(size_t k=std::min<size_t>(8,cur.size());k>=1&&now()<deadline;k/=2) for(size_t i=cur.size();i-->0&&now()<deadline;){ if(i+k>cur.size()) continue; auto t=cur; t.erase(t.begin()+i,t.begin()+i+k); if(bad(t)){ cur=t; prog=true; } }
    for(size_t i=0;i<cur.size()&&now()<deadline;i++){ if(cur[i]==0) continue; u64 orig=cur[i]; auto t=cur; t[i]=0; if(bad(t)){ cur=t; prog=true; continue; }
      u64 lo=0,hi=orig; while(hi-lo>1&&now()<deadline){ u64 m=lo+(hi-lo)/2; t=cur; t[i]=m; if(bad(t)){ hi=m; cur=t; prog=true; } else lo=m; } } }
  return cur; }
#ifdef PML_MT
bool mt_replay=false;
static const int TRIES=15,NEED=2;   // schedules are not ours to choose: a failure has to show up twice more
#else
static const int TRIES=8,NEED=2;    // what a corrupted heap leads to is not quite deterministic
#endif
template<class F> static bool again(F f){ int ok=0; for(int k=0;k<TRIES&&ok<NEED;k++){ ok+=f(); if(ok+TRIES-1-k<NEED) break; } return ok>=NEED; }
int main(int argc,char**argv){
  std::string prop="?",tier="quick",evid,rdir="/tmp",replay,only; u64 seed=1; double budget=600; int jobs=(int)sysconf(_SC_NPROCESSORS_ONLN); double scale=1; std::string variant="rel",exe;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--prop") prop=nx(); else if(a=="--tier") tier=nx(); else if(a=="--evidence") evid=nx(); else if(a=="--replay-dir") rdir=nx(); else if(a=="--replay") replay=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--budget") budget=atof(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--scale") scale=atof(nx().c_str()); else if(a=="--only") only=nx(); else if(a=="--cpu") case_cpu=atof(nx().c_str()); else if(a=="--variant") variant=nx(); else if(a=="--tag") exe=nx(); else if(a=="--no-known") KNOWN.clear(); else if(a=="--memonly") memonly=true; else if(a=="--probe") return 0; }
#ifdef PML_SAN
  case_cpu*=2;
#endif
#ifdef PML_MT
  if(!replay.empty()) mt_replay=true;
#endif
  if(!replay.empty()){ // replay file: "sub <name>" then "choices n c..." or "batch seed lo hi"
    std::ifstream f(replay); std::string k,name; std::vector<u64> ch; bool batch=false; u64 bs=0; long lo=0,hi=0; std::string line;
    while(std::getline(f,line)){ std::istringstream is(line); is>>k; if(k=="sub") is>>name; else if(k=="choices"){ size_t n; is>>n; ch.resize(n); for(auto&x:ch) is>>x; } else if(k=="batch"){ batch=true; is>>bs>>lo>>hi; } }
    for(auto&sb:SUBS) if(name==sb.name){ if(batch){ std::string m; bool b=false; for(int k=0;k<TRIES&&!b;k++) b=run_batch_child(sb,bs,lo,hi,m); printf("replay %s: %s %s\n",name.c_str(),b?"FAILS":"passes",m.c_str()); return b?1:0; }
      Res r=run_child(sb,&ch,0,true); for(int k=1;k<TRIES&&!r.fail;k++) r=run_child(sb,&ch,0,true); printf("replay %s: %s\n  case: %s\n  message: %s\n",name.c_str(),r.fail?"FAILS":"passes",r.desc.c_str(),r.msg.c_str()); return r.fail?1:0; }
    fprintf(stderr,"unknown sub %s\n",name.c_str()); return 2; }
  double t0=now();
  // known findings first
  struct KF { std::string id; bool reproduces; }; std::vector<KF> kfs;
  for(auto&k:KNOWN){ fflush(0); pid_t p=fork(); if(p==0){ limits(); mute(0); arm(); try{ k.fn(); }catch(...){ _exit(17);} _exit(0);} int st; waitpid(p,&st,0); bool b=!(WIFEXITED(st)&&WEXITSTATUS(st)==0); kfs.push_back({k.id,b}); printf("KNOWNSTATUS %s %d\n",k.id,b?1:0); }
  // work list: interleave subs so that a budget stop hits all of them evenly
  struct Job { int sub; long lo,hi; double key; }; std::vector<Job> jl;
  for(size_t si=0;si<SUBS.size();si++){ auto&sb=SUBS[si]; if(!only.empty()&&only!=sb.name) continue; long n=(long)((tier=="thorough"?sb.thorough:sb.quick)*scale); if(n<1) n=1; long b=sb.batch; long nb=(n+b-1)/b; for(long i=0;i<nb;i++) jl.push_back({(int)si,i*b,std::min(n,(i+1)*b)-1,(i+0.5)/nb}); }
  std::stable_sort(jl.begin(),jl.end(),[](const Job&a,const Job&b){return a.key<b.key;});
  struct W { pid_t pid; int fd; Job j; Shm*sh; std::string buf; }; std::vector<W> ws; std::vector<Shm*> pool; for(int i=0;i<jobs;i++) pool.push_back(newshm());
  size_t next=0; long evals=0,nontriv=0,discard=0; std::unordered_set<u64> seen; std::map<std::string,long> tags; std::map<std::string,std::vector<std::string>> samples; std::map<std::string,std::pair<long,double>> per; bool stopped=false;
  struct Fl { int sub; long lo,idx; std::string msg; }; std::vector<Fl> fails;
  auto consume=[&](W&w,const std::string&ln){ // R <hash> <nontrivial> <time> <desc>\t tags
    std::istringstream is(ln); char k; u64 h; int nt; double tm; is>>k>>h>>nt>>tm; std::string rest; std::getline(is,rest); auto tb=rest.find('\t'); std::string desc=rest.substr(0,tb),tg=tb==std::string::npos?"":rest.substr(tb+1);
    const char*nm=SUBS[w.j.sub].name; if(k=='D'){ discard++; return; } evals++; per[nm].first++; per[nm].second+=tm; if(nt&&seen.insert(h^strhash(nm)).second){ nontriv++; auto&sv=samples[nm]; if(sv.size()<3&&(evals%7==0||sv.empty())) sv.push_back(desc); }
    std::istringstream ts(tg); std::string t; while(ts>>t) tags[std::string(nm)+"/"+t]++; };
  int violations=0,hiccups=0; std::string vfile; std::vector<std::string> notes;
  while(!violations&&hiccups<25&&next<jl.size()){ fails.clear();
  while((next<jl.size()&&fails.empty())||!ws.empty()){
    if(fails.empty()&&now()-t0<budget) while(next<jl.size()&&!pool.empty()){ Job j=jl[next++]; int pf[2]; if(pipe(pf)) return 2; Shm*sh=pool.back(); pool.pop_back(); sh->idx=-1; sh->msg[0]=0; fflush(0); pid_t p=fork();
      if(p==0){ close(pf[0]); limits(); mute(0); auto&sb=SUBS[j.sub]; std::string ob;
        for(long i=j.lo;i<=j.hi;i++){ sh->idx=i; Gen g; g.s=hash3(seed,strhash(sb.name),i); Case c; std::string m; double a=now(); int rc=run_case(sb,g,c,sh,m); if(rc==1) _exit(17);
          u64 h=1469598103934665603ULL; for(u64 v:g.out) h=(h^v)*1099511628211ULL; std::ostringstream o; o<<(rc==2?'D':'R')<<" "<<h<<" "<<(c.nontrivial?1:0)<<" "<<(now()-a)<<" "; for(char ch:c.desc) o<<(ch=='\n'||ch=='\t'?' ':ch); o<<"\t"; for(auto&t:c.tags) o<<t<<" "; o<<"\n"; std::string q=o.str(); size_t off=0; while(off<q.size()){ ssize_t w=write(pf[1],q.data()+off,q.size()-off); if(w<=0) _exit(3); off+=w; } }
        _exit(0); }
      close(pf[1]); fcntl(pf[0],F_SETFL,O_NONBLOCK); ws.push_back({p,pf[0],j,sh,""}); }
    else if(next<jl.size()&&now()-t0>=budget){ stopped=true; next=jl.size(); }
    std::vector<pollfd> pv; for(auto&w:ws) pv.push_back({w.fd,POLLIN,0}); if(pv.empty()) continue; poll(pv.data(),pv.size(),200);
    for(size_t i=0;i<ws.size();){ W&w=ws[i]; char b[65536]; ssize_t n; bool eof=false; while((n=read(w.fd,b,sizeof b))>0) w.buf.append(b,n); if(n==0) eof=true;
      size_t e; size_t st0=0; while((e=w.buf.find('\n',st0))!=std::string::npos){ consume(w,w.buf.substr(st0,e-st0)); st0=e+1; } w.buf.erase(0,st0);
      if(eof){ int st; waitpid(w.pid,&st,0); close(w.fd); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ std::string m=w.sh->msg; if(WIFSIGNALED(st)) m="killed by signal "+std::to_string(WTERMSIG(st)); fails.push_back({w.j.sub,w.j.lo,w.sh->idx,m}); } pool.push_back(w.sh); ws.erase(ws.begin()+i); } else i++; } }
#ifdef PML_MT
  mt_replay=true;
#endif
  std::stable_sort(fails.begin(),fails.end(),[](const Fl&a,const Fl&b){return a.idx<b.idx;});
  for(auto&f:fails){ if(violations) break; auto&sb=SUBS[f.sub]; u64 cs=hash3(seed,strhash(sb.name),f.idx); Res r=run_child(sb,nullptr,cs); for(int k=NEED;k<TRIES&&!r.fail;k++) r=run_child(sb,nullptr,cs); std::string path=rdir+"/"+prop+(exe.empty()?"":"-"+exe)+"-"+sb.name+".replay"; 
    if(r.fail){ long tries=0; std::vector<u64> ch=r.out; bool hang=r.msg.find("no termination")!=std::string::npos; Res r0=hang?r:run_child(sb,&ch,0); for(int k=NEED;k<TRIES&&!r0.fail;k++) r0=run_child(sb,&ch,0); double keep_cpu=case_cpu; if(hang) case_cpu=std::min(case_cpu,12.0); 
      if(r0.fail){ double dl=now()+((tier=="thorough")?240:60); ch=shrink(sb,ch,dl,tries); case_cpu=keep_cpu; Res rr; bool ok; if(hang){ ok=true; rr=run_child(sb,&ch,0); if(!rr.fail){ ch=r.out; rr=r; } } else ok=again([&]{ Res x=run_child(sb,&ch,0); if(x.fail) rr=x; return x.fail; });
        if(ok){ std::ofstream o(path); o<<"# property "<<prop<<" variant "<<variant<<(exe.empty()?"":" exe "+exe)<<"\n# case: "<<rr.desc<<"\n# failure: "<<jesc(rr.msg)<<"\n# original seed case "<<f.idx<<" (VERIF_SEED="<<seed<<"), shrink attempts "<<tries<<"\nsub "<<sb.name<<"\nchoices "<<ch.size(); for(u64 v:ch) o<<" "<<v; o<<"\n"; violations++; vfile=path; printf("FAIL sub=%s case{%s} message{%s}\n",sb.name,rr.desc.c_str(),rr.msg.c_str()); continue; } }
    }
    std::string m; 
    if(again([&]{ return run_batch_child(sb,seed,f.lo,f.idx,m); })){ std::ofstream o(path); o<<"# property "<<prop<<" variant "<<variant<<(exe.empty()?"":" exe "+exe)<<"\n# history: cases "<<f.lo<<".."<<f.idx<<" run in one process\n# failure: "<<jesc(m)<<"\nsub "<<sb.name<<"\nbatch "<<seed<<" "<<f.lo<<" "<<f.idx<<"\n"; violations++; vfile=path; printf("FAIL sub=%s history %ld..%ld message{%s}\n",sb.name,f.lo,f.idx,m.c_str()); }
    else { hiccups++; notes.push_back(std::string("unreproducible event in ")+sb.name+" case "+std::to_string(f.idx)+": "+f.msg); printf("NOTE unreproducible sub=%s idx=%ld %s\n",sb.name,f.idx,f.msg.c_str()); } }
#ifdef PML_MT
  mt_replay=false;
#endif
  }
  double wall=now()-t0;
  if(!evid.empty()){ std::ofstream o(evid); o<<"{\n \"property\": \""<<prop<<"\", \"tier\": \""<<tier<<"\", \"seed\": "<<seed<<", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "<<evals<<", \"distinct_nontrivial\": "<<nontriv<<",\n  \"rule\": \""<<jesc(PROP_RULE)<<"\",\n  \"samples\": [";
    bool first=true; int cnt=0; for(auto&k:samples) for(auto&d:k.second){ if(cnt++>=40) break; o<<(first?"":",")<<"\n   \""<<jesc(k.first+": "+d)<<"\""; first=false; } o<<"],\n  \"discarded\": "<<discard<<", \"stopped_by_time_budget\": "<<(stopped?"true":"false")<<", \"variant\": \""<<variant<<"\",\n  \"cases_per_subcheck\": {"; first=true; for(auto&k:per){ o<<(first?"":", ")<<"\""<<k.first<<"\": "<<k.second.first; first=false; } o<<"},\n  \"class_counts\": {"; first=true; for(auto&k:tags){ o<<(first?"":", ")<<"\""<<jesc(k.first)<<"\": "<<k.second; first=false; } o<<"}\n },\n \"assumptions\": ["; first=true; for(auto&a:ASSUMPTIONS){ o<<(first?"":", ")<<"\""<<jesc(a)<<"\""; first=false; } for(auto&a:notes){ o<<(first?"":", ")<<"\""<<jesc(a)<<"\""; first=false; } o<<"],\n \"wall_s\": "<<wall<<",\n \"violations\": "<<violations<<"\n}\n"; }
  printf("SUMMARY prop=%s tier=%s variant=%s evaluations=%ld nontrivial=%ld discarded=%ld wall=%.1fs violations=%d%s\n",prop.c_str(),tier.c_str(),variant.c_str(),evals,nontriv,discard,wall,violations,stopped?" (time budget)":"");
  if(getenv("VERBOSE")) for(auto&k:per) printf("  %-32s n=%ld avg=%.4fs\n",k.first.c_str(),k.second.first,k.second.second/std::max(1L,k.second.first));
  if(violations){ printf("VIOLATION property=%s replay=%s\n",prop.c_str(),vfile.c_str()); return 1; }
  return 0; }
