// Support for the algorithm checks: inputs, checked element type and functors, running an algorithm in a pool.
#pragma once
#include "pools.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
// element with a key (compared) and a tag (identity); magic detects reads of dead or unconstructed memory, moved detects use after move
struct E { int k; int id; uint32_t magic; bool moved=false;
  E(int k_=0,int id_=-1):k(k_),id(id_),magic(0xE1E1u){}
  E(E const& o):k(o.k),id(o.id),magic(0xE1E1u),moved(o.moved){ o.ok(); }
  E(E&& o) noexcept :k(o.k),id(o.id),magic(0xE1E1u),moved(o.moved){ o.ok(); o.moved=true; }
  E& operator=(E const& o){ o.ok(); ok(); k=o.k; id=o.id; moved=o.moved; return *this; }
  E& operator=(E&& o) noexcept { o.ok(); ok(); if(this!=&o){ k=o.k; id=o.id; moved=o.moved; o.moved=true; } return *this; }
  ~E(){ ok(); magic=0xDEADu; }
  void ok() const { if(magic!=0xE1E1u) mon::fail("element:dead","element read or written outside its lifetime"); }
  void use() const { ok(); if(moved) mon::fail("element:moved-from","a moved-from element is passed to user code"); }
  friend bool operator==(E const& a,E const& b){ a.use(); b.use(); return a.k==b.k; }
  friend bool operator!=(E const& a,E const& b){ return !(a==b); }
  friend bool operator<(E const& a,E const& b){ a.use(); b.use(); return a.k<b.k; } };
typedef std::vector<E> VE;
inline std::vector<std::pair<int,int>> snap(VE const& v){ std::vector<std::pair<int,int>> r; for(auto&e:v) r.emplace_back(e.k,e.moved?-99:e.id); return r; }
template<class C> std::vector<std::pair<int,int>> snapr(C const& v){ std::vector<std::pair<int,int>> r; for(auto&e:v) r.emplace_back(e.k,e.moved?-99:e.id); return r; }
inline std::string show(VE const& v){ std::string s="["; int n=0; for(auto&e:v){ if(n++>40){ s+=".."; break; } s+=std::to_string(e.k)+" "; } return s+"]"; }

// functor state: counts calls; a moved-from functor has lost it
// throw_at: the call number at which user code throws (once, or from then on); kind 1 throws a type not derived from std::exception
struct Ctx { std::atomic<long> calls{0}; std::atomic<int> throw_at{-1}; std::atomic<long> thrown{0}; bool once=false; int kind=0; bool shortcut=false; };
inline std::shared_ptr<Ctx>& cur(){ static std::shared_ptr<Ctx>* c=new std::shared_ptr<Ctx>; return *c; }
struct Odd { int v; };
struct Boom : std::runtime_error { int v; explicit Boom(int x):std::runtime_error("boom"),v(x){} };
struct Fn { std::shared_ptr<Ctx> c; int a=0;
  Fn(std::shared_ptr<Ctx> x,int a_=0):c(std::move(x)),a(a_){}
  void hit() const { if(!c){ mon::fail("functor:moved-from","a moved-from copy of the user's functor is called"); return; } long n=c->calls.fetch_add(1,std::memory_order_relaxed); mon::ev(); if((n&7)==0) mon::jitter();
    int t=c->throw_at.load(std::memory_order_relaxed); if(t>=0&&(c->once?n==t:n>=t)){ c->thrown.fetch_add(1,std::memory_order_relaxed); if(c->kind) throw Odd{(int)n}; throw Boom((int)n); } } };
// predicates and comparisons over keys
struct Pred : Fn { int mode; Pred(std::shared_ptr<Ctx> x,int m,int a):Fn(std::move(x),a),mode(m){}
  static bool t(int mode,int a,int k){ switch(mode){case 0:return k<a;case 1:return k==a;case 2:return (k%(a<2?2:a))==0;case 3:return true;default:return false;} }
  bool operator()(E const& e) const { e.use(); hit(); return t(mode,a,e.k); } };
struct Less : Fn { int mode; Less(std::shared_ptr<Ctx> x,int m):Fn(std::move(x),0),mode(m){}
  static bool t(int mode,int x,int y){ switch(mode){case 0:return x<y;case 1:return x>y;case 2:return x/3<y/3;default:return x<y;} }
  bool operator()(E const& x,E const& y) const { x.use(); y.use(); hit(); return t(mode,x.k,y.k); } };
struct Eq : Fn { int mode; Eq(std::shared_ptr<Ctx> x,int m):Fn(std::move(x),0),mode(m){}
  static bool t(int mode,int x,int y){ return mode==0?x==y:mode==1?x/2==y/2:mode==2?x%3==y%3:mode==3?x<=y:x==2*y; }
  bool operator()(E const& x,E const& y) const { x.use(); y.use(); hit(); return t(mode,x.k,y.k); } };
#ifndef THROWMODE
#define THROWMODE 0
#endif
inline std::shared_ptr<Ctx> ctx(mon::Rng& r,int n){ auto c=std::make_shared<Ctx>(); cur()=c; if(THROWMODE){ int m=r(6); c->throw_at=m==0?0:m==1?r(3):m==2?r(2*n+4):m==3?std::max(0,n-1-r(3)):r(n+1); c->once=r.p(50); c->kind=r.p(30); } return c; }

// inputs
inline int gen_n(mon::Rng& r){ int m=r(12); if(m==0) return 0; if(m==1) return 1; if(m==2) return 2; if(m<7) return r.range(3,20); if(m<11) return r.range(20,150); return r.range(150,600); }
inline long gen_cut(mon::Rng& r,int n){ int m=r(10); if(m<2) return 1; if(m==2) return 2; if(m==3) return std::max(1,n-1); if(m==4) return std::max(1,n); if(m==5) return n+1; if(m==6) return 10L*n+5; return r.range(1,std::max(1,n)); }
inline VE gen(mon::Rng& r,int n){ VE v; v.reserve(n); int m=r(9),span=r.p(40)?r.range(1,3):r.p(50)?std::max(1,n):1000; for(int i=0;i<n;++i){ int k; switch(m){case 0:k=7;break;case 1:k=i;break;case 2:k=n-i;break;case 3:k=i/std::max(1,n/4);break;case 4:k=(i<n/2?i:n-i);break;default:k=r(span);} v.emplace_back(k,i);} 
  if(m==1&&n>2&&r.p(50)) v[r(n)].k=r(n); VE o(v); o.shrink_to_fit(); return o; }
inline const char* wk(int i){ static const char* t[]={"1","2","3","4","6"}; return t[i]; }
struct PoolSet { SP p; int n; };
inline PoolSet mk_pool(mon::Rng& r){ int n=r.pick(*new std::array<int,5>{1,2,3,4,6}); return {mk_tp(n),n}; }
// one pool per iteration block: creating threads is the expensive part
struct Pools { std::vector<SP> v; std::vector<int> n; Pools(){ for(int i:{1,2,4}){ v.push_back(mk_tp(i)); n.push_back(i);} } SP& pick(mon::Rng& r,int& k){ int i=r(3); k=n[i]; return v[i]; } };
inline Pools& pools(){ static Pools* p=nullptr; if(!p){ p=new Pools; mon::at_end().push_back([]{ delete p; p=nullptr; }); } return *p; }
// run an algorithm: f() is executed in the pool and returns the continuation of the algorithm
template<class R> struct Out { bool done=false, threw=false; int boom=-1; std::string what; std::optional<R> val; bool ok() const { return val.has_value(); } };
template<> struct Out<void> { bool done=false, threw=false; int boom=-1; std::string what; bool fine=false; bool ok() const { return fine; } };
// one job type for all algorithms: posts a plain job which starts the algorithm and hands its result to a promise
template<class R> struct Sink { std::shared_ptr<std::promise<R>> p;
  template<class T> void operator()(T&& t) const { try{ if constexpr(std::is_void<R>::value){ std::get<0>(t).get(); p->set_value(); } else p->set_value(std::move(std::get<0>(t).get())); } catch(...){ p->set_exception(std::current_exception()); } } };
inline void post_fn(SP& p,std::function<void()> f){ p.post(AC(std::move(f))); }
template<class R> Out<R> collect(std::future<R>& fu){
  Out<R> o; static int lim=getenv("VERIF_WAIT")?atoi(getenv("VERIF_WAIT")):30; if(fu.wait_for(std::chrono::seconds(lim))!=std::future_status::ready) return o;
  o.done=true;
  try{ if constexpr(std::is_void<R>::value){ fu.get(); o.fine=true; } else o.val.emplace(fu.get()); }
  catch(Boom& b){ o.threw=true; o.boom=b.v; } catch(Odd& b){ o.threw=true; o.boom=b.v; } catch(std::exception& e){ o.threw=true; o.what=e.what(); } catch(...){ o.threw=true; o.what="unknown"; }
  return o; }
template<class R,class F> Out<R> run(SP& p,F f){
  auto pr=std::make_shared<std::promise<R>>(); auto fu=pr->get_future();
  auto sf=std::make_shared<F>(std::move(f));
  post_fn(p,[pr,sf]{ try{ auto cont=(*sf)(); cont.on_done(Sink<R>{pr});
      if constexpr(!ba::detail::has_is_callback_continuation_task<decltype(cont)>::value){ ba::any_continuation ac(std::move(cont)); ba::get_continuations().emplace_front(std::move(ac)); } }
    catch(...){ pr->set_exception(std::current_exception()); } });
  sf.reset(); pr.reset();
  return collect(fu); }
// true if there is a value to compare. With user code throwing: success is a violation unless the algorithm may decide without the failing call
template<class R> bool chk_done(Out<R> const& o,const char* alg,std::string const& in){
  if(!o.done){ mon::fail_s(std::string("never-ready:")+alg,"future not ready after 30 s: "+in); return false; }
  Ctx& x=*cur(); long t=x.thrown.load();
  if(THROWMODE&&t){ mon::count("user code threw",1);
    if(!o.threw){ if(x.shortcut) return true; mon::fail_s(std::string("swallowed:")+alg,mon::fmt("user code threw %ld times (throw_at %d, %s) but success is reported: ",t,x.throw_at.load(),x.kind?"non-std":"std")+in); return false; }
    if(o.boom<0) mon::fail_s(std::string("other-exception:")+alg,"reports an exception the user did not throw ("+o.what+"): "+in);
    return false; }
  if(o.threw){ mon::fail_s(std::string("threw:")+alg,"unexpected exception "+o.what+": "+in); return false; }
  return true; }
#define DESC mon::fmt("n=%d cutoff=%ld workers=%d ",n,cut,w)
#define HEAD int n=gen_n(c.rng); long cut=gen_cut(c.rng,n); int w; SP& p=pools().pick(c.rng,w); c.chaos(); VE v=gen(c.rng,n); auto cx=ctx(c.rng,n);
#define INIT std::string in=DESC+show(v); c.say("%.300s",in.c_str());
// a continuation producing a range, as another algorithm would
#define AS_CONT(vec) ba::parallel_for(std::move(vec),[](E const&){},cut)
typedef std::vector<std::pair<int,int>> Snap;
inline std::string shows(Snap const& v){ std::string s="["; int n=0; for(auto&e:v){ if(n++>40){ s+=".."; break; } s+=std::to_string(e.first)+"/"+std::to_string(e.second)+" "; } return s+"]"; }
template<class R,class X> void same(Out<R> const& o,X const& want,const char* alg,const char* form,std::string const& in){
  std::string k=std::string(alg)+":"+form; if(!chk_done(o,k.c_str(),in)) return; if(!(*o.val==want)) mon::fail_s("result:"+k,"differs from the sequential algorithm: "+in); }
// a destination with guard elements on both sides
struct Dest { VE v; int n; enum{G=6};
  explicit Dest(int n_):n(n_){ for(int i=0;i<n+2*G;++i) v.emplace_back(-5,-1000-i); v.shrink_to_fit(); }
  VE::iterator b(){ return v.begin()+G; } VE::iterator e(){ return v.begin()+G+n; }
  void guards(const char* k,std::string const& in,int upto){ for(int i=0;i<(int)v.size();++i){ if(i>=G&&i<G+upto) continue; if(v[i].k!=-5||v[i].id!=-1000-i||v[i].moved){ mon::fail_s(std::string("out-of-range-write:")+k,mon::fmt("element %d outside the destination of %d was written: ",i-G,upto)+in); break; } } }
  // content == want, nothing else written
  void check(const char* alg,const char* form,std::string const& in,Snap const& want){ std::string k=std::string(alg)+":"+form; guards(k.c_str(),in,(int)want.size());
    Snap g; for(size_t i=0;i<want.size()&&G+i<v.size();++i) g.emplace_back(v[G+i].k,v[G+i].moved?-99:v[G+i].id); if(g!=want) mon::fail_s("result:"+k,"output differs from the sequential algorithm: "+in+" got "+shows(g)+" want "+shows(want)); } };
inline void eqv(Snap const& got,Snap const& want,const char* alg,const char* form,std::string const& in){ if(got!=want) mon::fail_s(std::string("result:")+alg+":"+form,"differs from the sequential algorithm: "+in+" got "+shows(got)+" want "+shows(want)); }
inline bool chk(bool ok,const char* key,const char* alg,const char* form,std::string const& in){ if(!ok) mon::fail_s(std::string(key)+":"+alg+":"+form,in); return ok; }
#define KEY(a,f) (std::string(a)+":"+(f)).c_str()
