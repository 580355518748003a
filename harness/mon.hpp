// Monitoring runtime shared by all harnesses: scenario registry, seeded randomness, delay injection,
// violation / evidence records on stdout, watchdog with starvation guard, object registry.
// Counters use relaxed atomics only, so that the monitors add no happens-before edge that could hide a race.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

namespace mon {
inline uint64_t mix(uint64_t x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31);}
inline uint64_t hstr(const char* s){ uint64_t h=1469598103934665603ull; for(;*s;++s) h=(h^(unsigned char)*s)*1099511628211ull; return h; }
struct Rng { uint64_t s; explicit Rng(uint64_t x=1):s(mix(x)){}
  uint64_t next(){ s+=0x9e3779b97f4a7c15ull; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  int operator()(int n){ return n<=1?0:(int)(next()%(uint64_t)n);}                 // [0,n)
  int range(int a,int b){ return a+(*this)(b-a+1);}                                  // [a,b]
  bool p(int pct){ return (*this)(100)<pct; }
  template<class C> auto& pick(C& c){ return c[(size_t)(*this)((int)c.size())]; }
  typedef uint32_t result_type; };
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- records
struct State {
  pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
  std::map<std::string,int> viols; std::set<uint64_t> sigs; std::map<std::string,long> counts; std::vector<std::string> samples;
  std::atomic<long> evals{0}, events{0};
  const char* scen="?"; uint64_t seed=1; bool thorough=false; std::atomic<int> iter{-1};
  std::atomic<double> t_iter{0}; std::atomic<double> limit{60}; std::atomic<bool> armed{false};
  std::atomic<uint64_t> chaos_seed{1}; std::atomic<int> chaos{0}; std::atomic<uint64_t> thr{0};
  std::string cur; };
inline State& S(){ static State* s=new State; return *s; }
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
struct RawLock { RawLock(){ __real_pthread_mutex_lock(&S().mu);} ~RawLock(){ __real_pthread_mutex_unlock(&S().mu);} };
inline std::string esc(const std::string& s){ std::string o; for(char ch:s){ if(ch=='"'||ch=='\\'){o+='\\';o+=ch;} else if((unsigned char)ch<32){ char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b;} else if((unsigned char)ch<127) o+=ch; else o+='?'; } return o; }
inline void emit(const std::string& l){ std::string s="@MON "+l+"\n"; size_t o=0; while(o<s.size()){ ssize_t n=::write(1,s.data()+o,s.size()-o); if(n<=0) break; o+=n; } }
inline std::string vfmt(const char* f, va_list a){ char b[1500]; vsnprintf(b,sizeof b,f,a); return b; }
inline std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f,...){ va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); return s; }
// a violated property. key identifies what failed independent of seed and timing.
inline void fail_s(const std::string& key,const std::string& msg){
  RawLock l; int& n=S().viols[key]; if(++n>2) return;
  emit("{\"t\":\"viol\",\"scen\":\""+esc(S().scen)+"\",\"iter\":"+std::to_string(S().iter.load())+",\"seed\":"+std::to_string(S().seed)+",\"key\":\""+esc(key)+"\",\"msg\":\""+esc(msg)+"\",\"case\":\""+esc(S().cur)+"\"}"); }
inline void fail(const char* key,const char* f,...) __attribute__((format(printf,2,3)));
inline void fail(const char* key,const char* f,...){ va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); fail_s(key,s); }
inline bool expect(bool ok,const char* key,const char* f,...) __attribute__((format(printf,3,4)));
inline bool expect(bool ok,const char* key,const char* f,...){ if(ok) return true; va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); fail_s(key,s); return false; }
inline void count(const char* k,long n=1){ RawLock l; S().counts[k]+=n; }
inline void ev(long n=1){ S().events.fetch_add(n,std::memory_order_relaxed); }

// ---------------------------------------------------------------- delay injection
inline uint64_t& tl_rng(){ static thread_local uint64_t r=0; return r; }
inline thread_local int tl_quiet=0;
inline void jitter_lvl(int lvl){
  if(lvl<=0||tl_quiet) return; uint64_t& r=tl_rng();
  if(!r) r=mix(S().chaos_seed.load(std::memory_order_relaxed)+S().thr.fetch_add(1,std::memory_order_relaxed)*7919)|1;
  r^=r<<13; r^=r>>7; r^=r<<17; unsigned v=(unsigned)(r>>20)&1023;
  if(lvl==1){ if(v<24) sched_yield(); else if(v<28){ timespec t{0,(long)(1000+(r&0xffff))}; nanosleep(&t,nullptr);} }
  else if(lvl==2){ if(v<100) sched_yield(); else if(v<130){ timespec t{0,(long)(1000+(r&0x1ffff))}; nanosleep(&t,nullptr);} }
  else { if(v<150) sched_yield(); else if(v<260){ timespec t{0,(long)(5000+(r&0x3ffff))}; nanosleep(&t,nullptr);} } }
inline void jitter(){ jitter_lvl(S().chaos.load(std::memory_order_relaxed)); }
inline void nap_us(long us){ timespec t{us/1000000,(us%1000000)*1000}; nanosleep(&t,nullptr); }
inline void spin(int n){ for(volatile int i=0;i<n;i=i+1); }

// ---------------------------------------------------------------- scenarios
struct Case { Rng rng; int iter; uint64_t seed; std::string desc; bool thorough;
  void say(const char* f,...) __attribute__((format(printf,2,3))) { va_list a; va_start(a,f); desc=vfmt(f,a); va_end(a); RawLock l; S().cur=desc; }
  void sig(uint64_t h){ RawLock l; S().sigs.insert(mix(mix(h)^hstr(desc.c_str()))); if(S().samples.size()<2) S().samples.push_back(desc); }
  void limit(double s){ S().limit=s; }
  // widest delay level for this iteration; most iterations run fast, some heavily disturbed
  void chaos(){ static const int t[]={0,1,2,1,3,0,2,1}; S().chaos=t[rng(8)]; } };
typedef void(*Fn)(Case&);
inline std::vector<std::function<void()>>& at_end(){ static std::vector<std::function<void()>> v; return v; } // run once after the last iteration
struct Entry{ std::string name; std::function<void(Case&)> fn; int q,t; };
inline std::vector<Entry>& reg(){ static std::vector<Entry> v; return v; }
struct Reg{ Reg(const char* n,std::function<void(Case&)> f,int q,int t){ reg().push_back({n,f,q,t}); } };
#define SCENARIO(name,q,t) static void name(mon::Case&); static mon::Reg reg_##name(#name,name,q,t); static void name([[maybe_unused]] mon::Case& c)

struct Log { // append-only event log with its own lock; use only where extra synchronisation does not matter
  pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; std::vector<std::pair<int,int>> v;
  void add(int a,int b){ __real_pthread_mutex_lock(&mu); v.emplace_back(a,b); __real_pthread_mutex_unlock(&mu); ev(); } };

inline long tid(){ return syscall(SYS_gettid); }
inline int thread_count(){ int n=0; DIR* d=opendir("/proc/self/task"); if(!d) return -1; while(dirent* e=readdir(d)) if(e->d_name[0]!='.') ++n; closedir(d); return n; }
// wait until f() or timeout; quiescence checks only, never a verdict by itself
template<class F> bool wait_for(F f,double sec=30){ double t=now(); for(;;){ if(f()) return true; if(now()-t>sec) return false; nap_us(200);} }

// ---------------------------------------------------------------- live object registry
// Token: copyable/movable object with a magic word; detects double destruction, use after destruction, leaks.
struct TokenStats { std::atomic<long> live{0}, made{0}, bad{0}; };
inline TokenStats& TS(){ static TokenStats* t=new TokenStats; return *t; }
template<bool Copy> struct TokenT {
  static constexpr uint32_t A=0xA11CE5u, D=0xDEADu;
  uint32_t magic=A; int id=-1; bool moved=false; int* heap;
  explicit TokenT(int i=0):id(i),heap(new int(i)){ reg1(); }
  TokenT(TokenT const& o):id(o.id),heap(nullptr){ static_assert(Copy,"copied a move-only token"); o.chk("copy"); heap=o.heap?new int(*o.heap):nullptr; moved=o.moved; reg1(); jitter(); }
  TokenT(TokenT&& o) noexcept :id(o.id),heap(o.heap){ o.chk("move"); moved=o.moved; o.heap=nullptr; o.moved=true; reg1(); jitter(); }
  TokenT& operator=(TokenT const& o){ static_assert(Copy,"copied a move-only token"); o.chk("copy="); chk("=copy"); if(this!=&o){ int* h=o.heap?new int(*o.heap):nullptr; delete heap; heap=h; id=o.id; moved=o.moved; } return *this; }
  TokenT& operator=(TokenT&& o) noexcept { o.chk("move="); chk("=move"); if(this!=&o){ delete heap; heap=o.heap; o.heap=nullptr; id=o.id; moved=o.moved; o.moved=true; } return *this; }
  ~TokenT(){ chk("dtor"); magic=D; delete heap; heap=nullptr; TS().live.fetch_sub(1,std::memory_order_relaxed); jitter(); }
  void reg1(){ TS().live.fetch_add(1,std::memory_order_relaxed); TS().made.fetch_add(1,std::memory_order_relaxed); }
  void chk(const char* w) const { if(magic!=A){ TS().bad.fetch_add(1,std::memory_order_relaxed); fail_s(std::string("lifetime:")+w,"object destroyed or overwritten is used"); } }
  int value() const { chk("use"); if(moved||!heap){ fail_s("moved-from-use","moved-from object used"); return -1; } return *heap; } };
struct MToken : TokenT<false> { explicit MToken(int i=0):TokenT<false>(i){} MToken(MToken&&) noexcept=default; MToken& operator=(MToken&&) noexcept=default; MToken(MToken const&)=delete; MToken& operator=(MToken const&)=delete; };
typedef TokenT<true> Token;
// expects all tokens gone (waits, as destruction may trail the observable effect)
inline void expect_no_live(const char* key,double sec=20){ if(!wait_for([]{return TS().live.load()==0;},sec)) { long n=TS().live.load(); fail(key,"%ld objects handed to the library were never destroyed",n); TS().live=0; } if(TS().live.load()<0){ fail(key,"more destructions than constructions"); TS().live=0; } }

inline void watchdog(){ tl_quiet=1; double base=now(); int it=-2; long ticks=0;
  for(;;){ nap_us(100000); if(!S().armed) { it=-2; continue; } int i=S().iter; double t=S().t_iter; if(i!=it||t!=base){ it=i; base=t; ticks=0; continue; } ++ticks;
    double el=now()-t; if(el>S().limit){ 
      if(ticks>=el*10*0.5){ fail_s(std::string("hang:")+S().scen,fmt("no progress for %.0f s (%ld of %.0f heartbeats)",el,ticks,el*10)); 
        if(getenv("MON_HANG_STOP")){ fprintf(stderr,"HANG pid %d\n",getpid()); for(;;) nap_us(1000000); }
        _exit(0);} 
      else if(el>S().limit*4) _exit(77); } } }

inline int run_main(int argc,char** argv){
  std::string run; uint64_t seed=1; int iters=-1,only=-1; bool list=false; State& s=S();
  for(int i=1;i<argc;++i){ std::string a=argv[i]; if(a=="--list") list=true; else if(a=="--run") run=argv[++i]; else if(a=="--seed") seed=strtoull(argv[++i],0,10); else if(a=="--iters") iters=atoi(argv[++i]); else if(a=="--thorough") s.thorough=true; else if(a=="--only") only=atoi(argv[++i]); }
  if(list){ for(auto&e:reg()) printf("%s %d %d\n",e.name.c_str(),e.q,e.t); return 0; }
  for(auto&e:reg()) if(e.name==run){
    s.scen=e.name.c_str(); s.seed=seed; int n=iters>=0?iters:(s.thorough?e.t:e.q);
    std::thread(watchdog).detach();
    for(int i=0;i<n;++i){ if(only>=0&&i!=only) continue; uint64_t cs=mix(seed*1000003+i)^hstr(e.name.c_str());
      Case c{Rng(cs),i,cs,"",s.thorough}; s.chaos_seed=cs; s.chaos=0; s.limit=45; s.iter=i; s.t_iter=now(); s.armed=true; 
      try{ e.fn(c); }
      catch(std::exception& x){ fail_s("exception:"+e.name,std::string("unexpected exception escaped to the user: ")+x.what()); }
      catch(...){ fail_s("exception:"+e.name,"unexpected exception escaped to the user"); }
      s.chaos=0; s.evals.fetch_add(1); }
    s.t_iter=now(); s.iter=n; for(auto&f:at_end()) f();
    s.armed=false;
    std::string o="{\"t\":\"done\",\"scen\":\""+e.name+"\",\"evals\":"+std::to_string(s.evals.load())+",\"events\":"+std::to_string(s.events.load())+",\"tokens\":"+std::to_string(TS().made.load())+",\"counts\":{";
    bool f=true; for(auto&k:s.counts){ if(!f)o+=","; f=false; o+="\""+esc(k.first)+"\":"+std::to_string(k.second);} o+="},\"samples\":["; f=true; for(auto&k:s.samples){ if(!f)o+=","; f=false; o+="\""+esc(k)+"\"";} o+="],\"sigs\":["; f=true; size_t n2=0; for(auto k:s.sigs){ if(++n2>20000) break; if(!f)o+=","; f=false; o+="\""+fmt("%lx",(unsigned long)k)+"\"";} o+="]}";
    emit(o); return 0; }
  fprintf(stderr,"no scenario %s\n",run.c_str()); return 3; }
} // namespace mon
// the header-only locks of the library are linked against these: delays before taking and after leaving a lock
extern "C" { inline int __attribute__((used)) mon_dummy(){return 0;}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ mon::jitter(); return mon::__real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ int r=mon::__real_pthread_mutex_unlock(m); mon::jitter(); return r; } }
int main(int argc,char** argv){ return mon::run_main(argc,argv); }
