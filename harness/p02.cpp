// P02: the last owner of a scheduler joins its threads, weak owners see it exactly as long as an owner exists, nothing leaks.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
using mon::Case;
static std::atomic<long> g_threads{0};                                        // worker threads which executed something and have not ended
struct Marker { Marker(){ g_threads++; } ~Marker(){ mon::jitter(); g_threads--; } void touch(){} };
static void mark(){ static thread_local Marker m; m.touch(); }
template<class P> std::vector<boost::thread::id> tids(P& p){ auto v=p.thread_ids(); std::sort(v.begin(),v.end()); return v; }
static int base_threads(){ static int n=mon::thread_count(); return n; }
static void all_gone(const char* pool,const char* when){ mon::expect(g_threads.load()==0,(std::string("not-joined:")+pool).c_str(),"%ld worker threads still alive after the last owner was destroyed (%s)",g_threads.load(),when); g_threads=0; }
template<class J> void post_job(ba::any_shared_scheduler_proxy<J> const& p,std::function<void()> f){ p.post(mkjob<J>([f]{ mark(); f(); })); }
template<class J> void post_job(ba::any_shared_scheduler<J> const& p,std::function<void()> f){ p.post(mkjob<J>([f]{ mark(); f(); })); }

template<class J,class MK> void life(Case& c,const char* pool,MK mk){
  typedef ba::any_shared_scheduler_proxy<J> PX; c.chaos(); int owners=c.rng.range(1,4), weaks=c.rng.range(0,3), jobs=c.rng.range(0,60); bool selflock=c.rng.p(50), slow=c.rng.p(30), early=c.rng.p(25);
  c.say("%s owners=%d weak=%d jobs=%d selflock=%d slow=%d early=%d chaos=%d",pool,owners,weaks,jobs,selflock,slow,early,mon::S().chaos.load());
  std::string P(pool); std::atomic<long> posted{0}, ran{0}; std::atomic<bool> alive{true}, gone{false}; std::atomic<uint64_t> tr{1}; std::atomic<int> wok{0}, wno{0};
  PX p0=mk(); if(!p0.is_valid()) mon::fail_s("invalid:"+P,"new proxy is not valid"); auto ids=tids(p0);
  ba::any_weak_scheduler<J> w0=p0.get_weak_scheduler(); ba::scheduler_weak_proxy<J> wp0(p0);
  auto job=[&,slow]{ mon::ev(); if(slow) mon::nap_us(80); mon::jitter(); ran++; tr.store(mon::mix(tr.load()+ran.load())); };
  auto selfjob=[&,slow]{ mon::ev(); auto w=ba::get_thread_scheduler<J>(); auto l=w.lock(); mon::jitter(); if(l.is_valid()){ posted++; l.post(mkjob<J>([&]{ mark(); ran++; })); if(slow) mon::nap_us(150); } else tr.store(mon::mix(tr.load()^77)); ran++; };
  std::vector<std::thread> th; std::atomic<int> left{owners};
  for(int i=0;i<owners;++i){ uint64_t s=c.rng.next(); PX mine(p0);
    th.emplace_back([&,s,mine]() mutable { mon::Rng g(s); PX a(std::move(mine)); if(mine.is_valid()) mon::fail_s("moved:"+P,"moved-from proxy is valid"); PX b; if(b.is_valid()) mon::fail_s("default:"+P,"default proxy is valid");
      int n=jobs/owners; for(int k=0;k<n;++k){ posted++; bool sj=selflock&&g.p(20); auto j=sj?std::function<void()>(selfjob):std::function<void()>(job);
          switch(g(4)){ case 0: post_job<J>(a,j); break; case 1: b=a; post_job<J>(b,j); b=PX(); break; case 2: { PX d(a); b=std::move(d); post_job<J>(b,j); break; } case 3: { std::vector<PX> v{a,a}; PX e=v.back(); v.clear(); post_job<J>(e,j); a=std::move(e); break; } }
          if(!(a==PX(a))||a!=PX(a)) mon::fail_s("equal:"+P,"copies of a proxy differ"); if(g.p(10)&&tids(a)!=ids) mon::fail_s("equal:"+P,"copies of a proxy report different threads");
          if(g.p(15)) mon::nap_us(g(80)); }
      if(g.p(50)) b=PX(); else { std::vector<PX> v(3,a); a=PX(); b=PX(); v.clear(); }
      left--; }); }
  std::vector<std::thread> wt; for(int i=0;i<weaks;++i){ uint64_t s=c.rng.next(); wt.emplace_back([&,s]{ mon::Rng g(s); auto w=w0; auto wp=wp0; int after=0;
      while(after<2){ bool a=alive.load(), gn=gone.load(); if(g.p(50)){ auto l=w.lock(); bool v=l.is_valid(); if(a&&alive.load()&&!v) mon::fail_s("weak-invalid:"+P,"weak scheduler could not be locked while an owner existed"); if(gn&&v) mon::fail_s("weak-valid:"+P,"weak scheduler locked after the last owner was destroyed");
            if(v){ wok++; mon::jitter(); posted++; post_job<J>(l,job); } else wno++; }
          else if(!gn){ auto l=wp.lock(); bool v=l.is_valid(); if(a&&alive.load()&&!v) mon::fail_s("weak-invalid:"+P,"weak proxy could not be locked while an owner existed"); if(v){ wok++; mon::jitter(); posted++; post_job<J>(l,job); } else wno++; }
          else { auto l=wp.lock(); if(l.is_valid()) mon::fail_s("weak-valid:"+P,"weak proxy locked after the last owner was destroyed"); }
          if(gn) ++after; mon::nap_us(g(60)); } }); }
  if(early){ alive=false; p0=PX(); for(auto&t:th) t.join(); } else { for(auto&t:th) t.join(); if(c.rng.p(50)) mon::nap_us(c.rng(300)); alive=false; p0=PX(); }
  // watchers may hold the scheduler a little longer: it is gone when no lock is held any more
  if(weaks==0){ all_gone(pool,"owner"); if(w0.lock().is_valid()||wp0.lock().is_valid()) mon::fail_s("weak-valid:"+P,"weak handle locked after the last owner was destroyed"); if(ran!=posted) mon::fail_s("lost:"+P,mon::fmt("%ld of %ld jobs executed when the last owner is gone",ran.load(),posted.load())); }
  bool dead=mon::wait_for([&]{ return !wp0.lock().is_valid()&&!w0.lock().is_valid(); },25); if(!dead) mon::fail_s("weak-valid:"+P,"scheduler still alive 25 s after the last owner was destroyed"); gone=true;
  for(auto&t:wt) t.join(); if(weaks) { if(!mon::wait_for([]{ return g_threads.load()==0; },20)) all_gone(pool,"watchers"); if(ran!=posted) mon::fail_s("lost:"+P,mon::fmt("%ld of %ld jobs executed when the scheduler is gone",ran.load(),posted.load())); }
  c.sig(tr.load()^(uint64_t)(wok.load()*131+wno.load())); }

// many short lives: neither threads nor memory grow
template<class J,class MK> void repeat(Case& c,const char* pool,MK mk){ c.chaos(); int n=c.rng.range(5,20); c.say("%s repeated %d times",pool,n); base_threads(); std::atomic<long> ran{0}; long want=0; uint64_t h=1;
  for(int i=0;i<n;++i){ auto p=mk(); int k=c.rng(4); for(int j=0;j<k;++j){ ++want; post_job<J>(p,[&]{ ran++; mon::ev(); }); } if(c.rng.p(20)) p.set_name("mon"); if(c.rng.p(50)){ auto q=p; p=mk(); ++want; post_job<J>(p,[&]{ ran++; }); q=p; } h=mon::mix(h+k); }
  all_gone(pool,"repeat"); mon::expect(ran==want,(std::string("lost:")+pool).c_str(),"%ld of %ld jobs executed",ran.load(),want);
  if(!mon::wait_for([]{ return mon::thread_count()<=base_threads(); },20)) mon::fail_s(std::string("thread-leak:")+pool,mon::fmt("%d threads instead of %d after all schedulers are gone",mon::thread_count(),base_threads())); c.sig(h); }

// layers: a servant owns a pool, posts to it, may own a servant of another layer; everything ends with the outermost proxy
struct Out { std::atomic<long> ran{0},cb{0},dtor{0}; std::atomic<bool> stop{false}; boost::thread::id main; };
struct Inner : ba::trackable_servant<> { Out* o; mon::Token t; Inner(ba::any_weak_scheduler<> w,Out* x,SP pool):ba::trackable_servant<>(w,pool),o(x),t(5){ mark(); } ~Inner(){ o->dtor++; }
  int work(int n){ mark(); Out* x=o; for(int i=0;i<n;++i) this->post_callback([x]{ mark(); mon::jitter(); x->ran++; return 1; },[x](ba::expected<int>){ x->cb++; }); return n+t.value()-5; } };
struct InnerP : ba::servant_proxy<InnerP,Inner> { template<class S> InnerP(S s,Out* o,SP p):ba::servant_proxy<InnerP,Inner>(s,o,p){} BOOST_ASYNC_FUTURE_MEMBER(work) };
struct Outer : ba::trackable_servant<> { Out* o; InnerP in; SP pool; Outer(ba::any_weak_scheduler<> w,Out* x,SP is,SP ip,SP p):ba::trackable_servant<>(w,p),o(x),in(is,x,ip),pool(p){ mark(); } ~Outer(){ o->dtor++; }
  void go(int n){ mark(); Out* x=o; auto f=std::make_shared<std::future<int>>(in.work(n)); this->post_callback([x]{ mark(); x->ran++; mon::jitter(); },[x](ba::expected<void>){ x->cb++; }); if(n%3==0) f->get(); } };
struct OuterP : ba::servant_proxy<OuterP,Outer> { template<class S> OuterP(S s,Out* o,SP is,SP ip,SP p):ba::servant_proxy<OuterP,Outer>(s,o,is,ip,p){} BOOST_ASYNC_FUTURE_MEMBER(go) };
static SP any_tp(Case& c){ switch(c.rng(5)){ case 0: return mk_tp(c.rng.range(1,3)); case 1: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)c.rng.range(1,3)); case 2: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::guarded_deque<>,ba::no_cpu_load_saving,true>>((size_t)c.rng.range(1,3)); case 3: return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)c.rng.range(1,2)); default: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(mk_tp(1),mk_tp(c.rng.range(1,2))); } }
static void layers(Case& c){ c.chaos(); int n=c.rng.range(1,12); bool hold=c.rng.p(50); c.say("layers calls=%d hold=%d chaos=%d",n,hold,mon::S().chaos.load()); Out o; bool early=c.rng.p(50);
  { SP s1=mk_single(), s2=c.rng.p(70)?mk_single():s1, p1=any_tp(c), p2=c.rng.p(60)?any_tp(c):p1; if(s1==s2) s2=mk_single(); ba::any_weak_scheduler<> w1=p1.get_weak_scheduler();
    { OuterP a(s1,&o,s2,p2,p1); if(early){ s1=SP(); s2=SP(); p1=SP(); p2=SP(); }
      std::vector<std::thread> th; for(int t=0;t<c.rng.range(1,3);++t){ uint64_t s=c.rng.next(); OuterP b(a); th.emplace_back([s,b,n]() mutable { mon::Rng g(s); for(int i=0;i<n;++i){ auto f=b.go(g(7)); if(g.p(50)) f.get(); mon::ev(); } }); }
      if(!hold) a=OuterP(a); if(!w1.lock().is_valid()) mon::fail_s("weak-invalid:layers","pool of a living servant is gone"); for(auto&t:th) t.join(); if(o.dtor) mon::fail_s("early-dtor:layers","servant destroyed while a proxy existed"); }
    if(early){ /* the proxies were the last owners */ if(!mon::wait_for([&]{ return o.dtor==2; },20)) mon::fail_s("late-dtor:layers","servants not destroyed"); all_gone("layers","proxies"); if(w1.lock().is_valid()) mon::fail_s("weak-valid:layers","pool alive after its owners"); } }
  mon::expect(o.dtor==2,"late-dtor:layers","%ld of 2 servants destroyed after their schedulers",o.dtor.load()); all_gone("layers","schedulers"); c.sig(mon::mix(o.ran*1000+o.cb)); mon::expect_no_live("leak:layers"); }

#define LF(nm,q,J,...) static mon::Reg rl_##nm("life_" #nm,[](Case& c){ life<J>(c,#nm,[&c]{ (void)c; return ba::any_shared_scheduler_proxy<J>(__VA_ARGS__); }); },q,q*20); static mon::Reg rr_##nm("rep_" #nm,[](Case& c){ repeat<J>(c,#nm,[&c]{ (void)c; return ba::any_shared_scheduler_proxy<J>(__VA_ARGS__); }); },q/4,q*5);
typedef ba::lockfree_queue<> LQ; typedef ba::guarded_deque<> GD;
#if PART==1
LF(single,60,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>())
LF(tp,80,AC,ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>((size_t)c.rng.range(1,4)))
LF(mq,60,AC,ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,4)))
LF(tplog,60,AL,ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<AL>>>((size_t)c.rng.range(1,4)))
SCENARIO(layered,150,3000){ layers(c); }
#elif PART==2
LF(steal,60,AC,ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<GD,ba::no_cpu_load_saving,true>>((size_t)c.rng.range(1,4)))
LF(smq,60,AC,ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ,ba::default_find_position<>,ba::no_cpu_load_saving,true>>((size_t)c.rng.range(1,4)))
LF(comp,60,AC,ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(mk_tp(c.rng.range(1,2)),SP(ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,2)))))
LF(asio,60,AC,ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)c.rng.range(1,3)))
LF(io,50,AC,ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,2),(size_t)c.rng.range(2,4)))
LF(multi,50,AC,ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>((size_t)c.rng.range(1,3),(size_t)c.rng.range(1,4)))
#endif
