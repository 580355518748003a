// P27: the io pool grows on demand within bounds and shrinks without losing jobs.
#include "pools.hpp"
#include <set>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
using mon::fail_s; using mon::fmt;
#define K(k) (std::string("io:")+k)
typedef ba::guarded_deque<> DQ; typedef ba::lockfree_queue<AC,ba::lockfree_size> LS;
static SP io(int q,size_t mn,size_t mx){ return q?ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<DQ>>(mn,mx):ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<LS>>(mn,mx); }
static std::atomic<int> serial_gen{0}; static int serial(){ static thread_local int s=++serial_gen; return s; }
struct Ex { int i; };
// what the jobs see
struct Mon { size_t mn,mx; std::atomic<int> running{0}, peak{0}; std::atomic<bool> go{false}; std::mutex m; std::set<int> serials;
  void in(){ int r=++running; int p=peak; while(p<r&&!peak.compare_exchange_weak(p,r)); mon::ev(); std::lock_guard<std::mutex> l(m); serials.insert(serial()); } void out(){ --running; } };
// samples the reported threads all the time
struct Watch { SP* p; Mon& m; std::atomic<bool> stop{false}; size_t lo=1000,hi=0; long n=0; std::thread t; Watch(SP* q,Mon& mm):p(q),m(mm),t([this]{ mon::tl_quiet=1; while(!stop){ size_t x=p->thread_ids().size(); ++n; if(x<lo) lo=x; if(x>hi) hi=x; mon::nap_us(30); } }){}
  void end(){ if(!t.joinable()) return; stop=true; t.join(); mon::ev(n); if(lo<m.mn) fail_s(K("below_min"),fmt("%zu threads, minimum %zu",lo,m.mn)); if(hi>m.mx) fail_s(K("above_max"),fmt("%zu threads, maximum %zu",hi,m.mx)); if(m.peak>(int)m.mx) fail_s(K("peak"),fmt("%d jobs at once, maximum %zu",m.peak.load(),m.mx)); } ~Watch(){ end(); } };
static void bounds(mon::Case& c,size_t& mn,size_t& mx){ mn=(size_t)c.rng.range(1,3); mx=mn+(size_t)c.rng(5); }

// all threads blocked, more jobs waiting: the pool grows up to its maximum, and shrinks afterwards; several rounds
SCENARIO(grow,240,2000){ c.chaos(); size_t mn,mx; bounds(c,mn,mx); int q=c.rng(2); int rounds=c.rng.range(1,3); bool swp=c.rng(4)==0; c.say("q=%d %zu-%zu rounds=%d swapped=%d",q,mn,mx,rounds,swp); Mon m; m.mn=mn; m.mx=mx; long t0=mon::thread_count(); uint64_t sg=mn*100+mx;
  { SP p=swp?io(q,mx,mn):io(q,mn,mx); Watch w(&p,m); 
  for(int r=0;r<rounds;++r){ m.go=false; std::vector<std::future<int>> fu; int n=0; auto add=[&]{ int i=n++; auto f=[&m,i]{ m.in(); while(!m.go) mon::nap_us(30); m.out(); return i; }; fu.push_back(ba::post_future(p,f)); };
    bool ok=true; for(size_t i=0;i<mn&&ok;++i){ add(); ok=mon::wait_for([&]{ return m.running==(int)i+1; },20); } if(!ok){ fail_s(K("min_busy"),fmt("%d of %zu jobs started by %zu threads",m.running.load(),mn,mn)); m.go=true; break; } // one by one: no thread is added
    if(p.thread_ids().size()!=mn) fail_s(K("early"),"thread added while no job had to wait for another");
    int k=c.rng.range(2,8); if(c.rng(2)) for(int i=0;i<k;++i){ add(); mon::jitter(); } else { std::mutex fm; std::vector<std::thread> th; std::vector<std::future<int>> more; for(int i=0;i<k;++i){ int id=n++; th.emplace_back([&,id]{ auto f=ba::post_future(p,[&m,id]{ m.in(); while(!m.go) mon::nap_us(30); m.out(); return id; }); std::lock_guard<std::mutex> l(fm); more.push_back(std::move(f)); }); } for(auto&t:th) t.join(); std::vector<std::pair<int,int>> o; for(auto&f:more) fu.push_back(std::move(f)); }
    size_t want=std::min(mx,mn+(size_t)k-1); if(!mon::wait_for([&]{ return m.running>=(int)want; },20)) fail_s(K("no_growth"),fmt("%d jobs running, %d waiting, %zu-%zu threads",m.running.load(),n-m.running.load(),mn,mx));
    mon::nap_us(300); if(m.running>(int)mx) fail_s(K("too_many"),fmt("%d jobs at once, maximum %zu",m.running.load(),mx)); m.go=true; std::vector<int> seen((size_t)n,0); for(auto&f:fu) ++seen[(size_t)f.get()]; for(int x:seen) if(x!=1) fail_s(K("value"),"job lost or repeated");
    if(!mon::wait_for([&]{ return p.thread_ids().size()==mn; },20)) fail_s(K("no_shrink"),fmt("%zu threads remain, minimum %zu",p.thread_ids().size(),mn)); sg=mon::mix(sg+(uint64_t)k+want*10); }
  w.end(); } if(!mon::wait_for([&]{ return mon::thread_count()<=t0; },10)) fail_s(K("left"),"threads left after the pool died"); c.sig(sg); }

// bursts from several producers, also from the jobs themselves, interruptions, exceptions
SCENARIO(churn,240,2000){ c.chaos(); size_t mn,mx; bounds(c,mn,mx); int q=c.rng(2); int np=c.rng.range(1,4); c.say("q=%d %zu-%zu producers=%d",q,mn,mx,np); Mon m; m.mn=mn; m.mx=mx; std::atomic<int> total{0}; int per=c.rng.range(1,60); std::vector<std::atomic<int>> ran((size_t)(np*per*2)); std::atomic<int> inner{0}; long t0=mon::thread_count();
  { SP p=io(q,mn,mx); Watch w(&p,m); ba::scheduler_weak_proxy<AC> dummy; (void)dummy; SP* pp=&p; std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int a=0;a<np;++a) seeds.push_back(c.rng.next());
    for(int a=0;a<np;++a) th.emplace_back([&,a]{ mon::Rng r(seeds[(size_t)a]); std::vector<std::future<int>> fu; std::vector<int> exp; std::vector<std::tuple<std::future<int>,ba::any_interruptible>> fi; std::vector<int> fid;
      for(int i=0;i<per;++i){ int id=a*per+i; std::atomic<int>* cnt=&ran[(size_t)id]; int kind=r(10); int nap=r(4)?0:r(400);
        if(kind<6) { fu.push_back(ba::post_future(p,[&m,cnt,id,nap]{ m.in(); ++*cnt; if(nap) mon::nap_us(nap); mon::jitter(); m.out(); return id; })); exp.push_back(id); }
        else if(kind==6){ fu.push_back(ba::post_future(p,[&m,cnt,id]()->int{ m.in(); ++*cnt; m.out(); throw Ex{id}; })); exp.push_back(-1-id); }
        else if(kind==7){ std::atomic<int>* c2=&ran[(size_t)(np*per+id)]; ++inner; fu.push_back(ba::post_future(p,[&m,cnt,c2,id,pp,&inner]{ m.in(); ++*cnt; pp->post(ba::any_callable([&m,c2,&inner]{ m.in(); ++*c2; m.out(); --inner; })); m.out(); return id; })); exp.push_back(id); }
        else { fi.push_back(ba::interruptible_post_future(p,[&m,cnt,id,nap]{ m.in(); struct O{ Mon& m; ~O(){ m.out(); } } o{m}; ++*cnt; if(nap) boost::this_thread::sleep_for(boost::chrono::microseconds(nap)); return id; })); fid.push_back(id); if(r(2)) std::get<1>(fi.back()).interrupt(); }
        if(r(8)==0) mon::nap_us(r(600)); }
      for(size_t i=0;i<fu.size();++i) try{ if(fu[i].wait_for(std::chrono::seconds(30))!=std::future_status::ready){ fail_s(K("churn_stuck"),"job not executed"); return; } int v=fu[i].get(); if(v!=exp[i]) fail_s(K("churn_value"),"wrong result"); }catch(Ex& e){ if(-1-e.i!=exp[i]) fail_s(K("churn_exception"),"wrong exception"); }
      for(size_t i=0;i<fi.size();++i){ auto& f=std::get<0>(fi[i]); if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready){ fail_s(K("churn_istuck"),"interruptible job never finished"); return; } try{ if(f.get()!=fid[i]) fail_s(K("churn_ivalue"),"wrong result"); }catch(...){ } if(r(2)) std::get<1>(fi[i]).interrupt(); } // also after the end of its thread
      if(r(2)) mon::nap_us(r(3000)); for(auto&x:fi) if(r(2)) std::get<1>(x).interrupt(); for(size_t i=0;i<exp.size();++i) ++total; });
    for(auto&t:th) t.join(); if(!mon::wait_for([&]{ return inner==0; },20)) fail_s(K("churn_inner"),fmt("%d jobs posted by jobs not executed",inner.load()));
    for(auto&x:ran) if(x>1) fail_s(K("churn_twice"),"job executed twice"); if(!mon::wait_for([&]{ return p.thread_ids().size()==mn; },20)) fail_s(K("churn_shrink"),fmt("%zu threads remain, minimum %zu",p.thread_ids().size(),mn)); w.end(); }
  { std::lock_guard<std::mutex> l(m.m); c.sig(m.serials.size()*100000+(uint64_t)m.peak*1000+mn*100+mx); } if(!mon::wait_for([&]{ return mon::thread_count()<=t0; },10)) fail_s(K("churn_left"),"threads left after the pool died"); }

// the pool dies with jobs waiting and with all kinds of threads busy: everything posted is executed
SCENARIO(shutdown_pending,240,2000){ c.chaos(); size_t mn,mx; bounds(c,mn,mx); int q=c.rng(2); int n=c.rng.range(1,60); bool blk=c.rng(2); c.say("q=%d %zu-%zu n=%d blocked=%d",q,mn,mx,n,blk); Mon m; m.mn=mn; m.mx=mx; long t0=mon::thread_count(); std::vector<std::atomic<int>> ran((size_t)n); std::atomic<int> bad{0}; std::thread rel;
  { SP p=io(q,mn,mx); for(int i=0;i<n;++i){ std::atomic<int>* x=&ran[(size_t)i]; mon::Token tk(i); p.post(ba::any_callable([&m,x,blk,i,tk,&bad]{ m.in(); if(blk&&i<12) while(!m.go) mon::nap_us(20); else mon::jitter(); if(tk.value()!=i) ++bad; ++*x; m.out(); })); if(c.rng(10)==0) mon::nap_us(c.rng(300)); }
    if(blk){ int us=c.rng(2000); rel=std::thread([&m,us]{ mon::nap_us(us); m.go=true; }); } else m.go=true; }
  m.go=true; if(rel.joinable()) rel.join(); for(int i=0;i<n;++i) if(ran[(size_t)i]!=1) fail_s(K("end_lost"),fmt("job %d of %d executed %d times",i,n,ran[(size_t)i].load())); if(bad) fail_s(K("end_value"),"argument damaged"); if(m.peak>(int)mx) fail_s(K("end_peak"),"more threads than the maximum");
  mon::expect_no_live(K("end_live").c_str()); if(!mon::wait_for([&]{ return mon::thread_count()<=t0; },10)) fail_s(K("end_left"),"threads left"); std::lock_guard<std::mutex> l(m.m); c.sig(m.serials.size()*1000+(uint64_t)n); }

// as the thread pool of a servant: callbacks in the servant's thread, exactly once
struct Sv : ba::trackable_servant<> { std::atomic<int>* left; Mon* m; std::vector<int> got; boost::thread::id tid; int bad=0;
  Sv(ba::any_weak_scheduler<> s,SP w,Mon* mm,std::atomic<int>* l):ba::trackable_servant<>(s,w),left(l),m(mm),tid(boost::this_thread::get_id()){}
  void start(int n){ got.assign((size_t)n,0); Mon* mm=m; for(int i=0;i<n;++i){ auto cb=[this,i](ba::expected<int> e){ mon::ev(); if(boost::this_thread::get_id()!=tid) ++bad; try{ int v=e.get(); if(v!=i||i%7==3) ++bad; }catch(Ex& x){ if(x.i!=i||i%7!=3) ++bad; } ++got[(size_t)i]; --*left; }; post_callback([mm,i]{ mm->in(); mon::jitter(); if(i%11==0) mon::nap_us(200); mm->out(); if(i%7==3) throw Ex{i}; return i; },std::move(cb)); } }
  int check(){ int b=bad; for(int x:got) if(x!=1) ++b; return b; } };
struct Px : ba::servant_proxy<Px,Sv>{ typedef ba::servant_proxy<Px,Sv>::callable_type callable_type; template<class S,class... A> Px(S s,A... a):ba::servant_proxy<Px,Sv>(s,a...){} BOOST_ASYNC_FUTURE_MEMBER(start) BOOST_ASYNC_FUTURE_MEMBER(check) };
SCENARIO(servant,160,1600){ c.chaos(); size_t mn,mx; bounds(c,mn,mx); int q=c.rng(2); int n=c.rng.range(1,80); c.say("q=%d %zu-%zu n=%d",q,mn,mx,n); Mon m; m.mn=mn; m.mx=mx; std::atomic<int> left{n};
  { auto s=mk_single(); SP p=io(q,mn,mx); Watch w(&p,m); { Px px(s,p,&m,&left); px.start(n).get(); if(!mon::wait_for([&]{ return left==0; },30)) fail_s(K("servant_stuck"),fmt("%d callbacks missing",left.load())); if(int b=px.check().get()) fail_s(K("servant_bad"),fmt("%d callbacks wrong, missing or repeated",b)); }
    if(!mon::wait_for([&]{ return p.thread_ids().size()==mn; },20)) fail_s(K("servant_shrink"),"threads remain"); w.end(); } std::lock_guard<std::mutex> l(m.m); c.sig(m.serials.size()*1000+(uint64_t)n); }
