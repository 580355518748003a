// P24: asio work and timer handlers run once, in the right thread, not before time.
#include "pools.hpp"
#include <set>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
using mon::fail_s; using mon::fmt;
#define K(k) (std::string("asio:")+k)
typedef std::chrono::steady_clock SC; typedef SC::time_point TP; typedef std::chrono::microseconds US; typedef boost::system::error_code EC;
typedef ba::asio_deadline_timer_proxy TM;
static SP mk_asio(size_t n){ return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n); }
// one wait: what was asked and what came
struct W { TP earliest; bool stopped=false; bool far=false; std::atomic<int> calls{0}; int ec=-1; TP at; int bad=0; };
struct Book { std::vector<std::unique_ptr<W>> w; std::atomic<int> pending{0}; std::atomic<bool> dead{false}; std::atomic<int> after_death{0}; };
struct Timer { std::unique_ptr<TM> t; TP earliest; bool far=false; std::vector<W*> open; };
struct Sv : ba::trackable_servant<> { SP as; Book* b; boost::thread::id tid; std::vector<Timer> ts; mon::Rng r; int left=0; std::atomic<bool>* over=nullptr;
  Sv(ba::any_weak_scheduler<> s,SP a,Book* bk,uint64_t seed):ba::trackable_servant<>(s,a),as(a),b(bk),tid(boost::this_thread::get_id()),r(seed){}
  ~Sv(){ b->dead=true; }
  US dur(bool& far){ far=false; int k=r(10); if(k<2){ far=true; return std::chrono::duration_cast<US>(std::chrono::seconds(100)); } if(k==2) return US(0); return US(r(k<7?3000:25000)); }
  void create(Timer& t){ US d=dur(t.far); stop(t); t.earliest=SC::now()+d; t.t.reset(new TM(as,d)); }
  void stop(Timer& t){ for(auto w:t.open) w->stopped=true; t.open.clear(); }
  std::function<void(EC const&)> handler(W* w){ mon::Token tk(7); Book* bk=b; return [this,w,tk,bk](EC const& e){ mon::ev(); if(bk->dead) ++bk->after_death; if(boost::this_thread::get_id()!=tid) ++w->bad; if(tk.value()!=7) ++w->bad; w->at=SC::now(); w->ec=!e?0:e==boost::asio::error::operation_aborted?1:2; if(w->ec==1&&!w->stopped) w->bad|=16; ++w->calls; --bk->pending; }; }
  W* add(Timer& t){ b->w.emplace_back(new W); W* w=b->w.back().get(); w->earliest=t.earliest; w->far=t.far; ++b->pending; t.open.push_back(w); return w; }
  void step(int n){ if(ts.empty()) ts.resize((size_t)n); 
    for(int i=0;i<3;++i){ Timer& t=ts[(size_t)r((int)ts.size())]; if(!t.t){ create(t); continue; } switch(r(9)){ case 0: case 1: case 2: { W* w=add(t); async_wait(*t.t,handler(w)); break; } 
      case 3: case 4: { US d=dur(t.far); stop(t); t.earliest=SC::now()+d; W* w=add(t); async_wait_duration(*t.t,d,handler(w)); break; }
      case 5: { US d=dur(t.far); stop(t); t.earliest=SC::now()+d; t.t->reset(d); break; }
      case 6: stop(t); t.t->cancel(); break; case 7: stop(t); t.t.reset(); break; default: mon::jitter(); } } }
  void close_far(){ for(auto&t:ts) if(t.t&&t.far){ stop(t); if(r(2)) t.t->cancel(); else t.t.reset(); } }
  void close_all(){ for(auto&t:ts){ stop(t); t.t.reset(); } }
  // re-arms itself
  void periodic(int n,int us,std::atomic<bool>* o){ over=o; left=n; ts.resize(1); ts[0].earliest=SC::now()+US(us); ts[0].t.reset(new TM(as,US(us))); W* w=add(ts[0]); arm(w,us,true); }
  void arm(W* w,int us,bool first){ auto f=[this,w,us](EC const& e){ mon::ev(); w->at=SC::now(); w->ec=!e?0:1; ++w->calls; --b->pending; if(boost::this_thread::get_id()!=tid) ++w->bad; if(--left==0){ *over=true; return; } ts[0].earliest=SC::now()+US(us); W* n=add(ts[0]); arm(n,us,false); }; if(first) async_wait(*ts[0].t,f); else async_wait_duration(*ts[0].t,US(us),f); }
  // worker tasks and timers on the same scheduler
  void mixed(int n){ for(int i=0;i<n;++i){ b->w.emplace_back(new W); W* w=b->w.back().get(); w->earliest=SC::now(); ++b->pending; auto cb=[this,w,i](ba::expected<int> e){ ++w->calls; w->at=SC::now(); w->ec=0; if(boost::this_thread::get_id()!=tid) ++w->bad; try{ if(e.get()!=i) ++w->bad; }catch(int x){ if(x!=i) ++w->bad; } --b->pending; }; post_callback([i]{ mon::jitter(); if(i%5==4) throw i; return i; },std::move(cb)); } }
  void singles(int n,bool fn){ (void)fn; ts.resize((size_t)n); for(auto&t:ts){ US d(r(6000)); t.earliest=SC::now()+d; t.t.reset(new TM(as,d)); W* w=add(t); async_wait(*t.t,handler(w)); } } };
struct Px : ba::servant_proxy<Px,Sv>{ typedef ba::servant_proxy<Px,Sv>::callable_type callable_type; template<class S,class... A> Px(S s,A... a):ba::servant_proxy<Px,Sv>(s,a...){}
  BOOST_ASYNC_FUTURE_MEMBER(step) BOOST_ASYNC_FUTURE_MEMBER(close_far) BOOST_ASYNC_FUTURE_MEMBER(close_all) BOOST_ASYNC_FUTURE_MEMBER(periodic) BOOST_ASYNC_FUTURE_MEMBER(mixed) BOOST_ASYNC_FUTURE_MEMBER(singles) };
static void judge(Book& b,bool all,const char* where){ int i=0; for(auto&p:b.w){ W& w=*p; ++i; if(w.calls>1) fail_s(K("twice:")+where,fmt("wait %d: callback called %d times",i,w.calls.load())); if(w.calls==0){ if(all) fail_s(K("never:")+where,fmt("wait %d of %zu: callback never called (%s, %s)",i,b.w.size(),w.far?"far":"near",w.stopped?"stopped":"not stopped")); continue; }
    if(w.bad&15) fail_s(K("thread:")+where,"callback in another thread than the servant's, or its data damaged"); if(w.bad&16) fail_s(K("aborted:")+where,"reported as cancelled, but nobody cancelled, reset or destroyed the timer"); if(w.ec==2) fail_s(K("code:")+where,"unknown error code");
    if(w.ec==0&&w.at<w.earliest) fail_s(K("early:")+where,fmt("expired %ld us too early",(long)std::chrono::duration_cast<US>(w.earliest-w.at).count())); if(w.ec==0&&w.far) fail_s(K("far:")+where,"a timer of 100 s is reported as expired"); } }
static uint64_t shape(Book& b){ uint64_t h=b.w.size(); for(auto&w:b.w) h=mon::mix(h*3+(uint64_t)(w->ec+1)); return h; }
struct Jobs { std::vector<std::future<boost::thread::id>> f; void add(SP p,int n,mon::Rng& r){ for(int i=0;i<n;++i) f.push_back(ba::post_future(p,[]{ mon::jitter(); return boost::this_thread::get_id(); },"",(size_t)r(4))); }
  void check(std::vector<boost::thread::id> v){ for(auto&x:f){ if(x.wait_for(std::chrono::seconds(20))!=std::future_status::ready){ fail_s(K("job_stuck"),"job of an asio scheduler not executed"); return; } mon::ev(); auto i=x.get(); if(std::find(v.begin(),v.end(),i)==v.end()) fail_s(K("job_thread"),"not executed by a thread of the scheduler"); } } };

SCENARIO(history,120,1200){ c.chaos(); int nt=c.rng.range(1,4),n=c.rng.range(1,12); c.say("timers=%d steps=%d",nt,n); Book b; Jobs j; SP as=mk_asio(1); auto s=mk_single();
  { Px px(s,as,&b,c.rng.next()); for(int i=0;i<n;++i){ px.step(nt).get(); if(c.rng(3)==0) j.add(as,c.rng(6),c.rng); if(c.rng(3)==0) mon::nap_us(c.rng(4000)); }
    if(c.rng(2)) px.close_all().get(); else px.close_far().get(); j.check(as.thread_ids()); if(!mon::wait_for([&]{ return b.pending==0; },20)){ } mon::nap_us(500); }
  mon::wait_for([&]{ return b.dead.load(); },10); judge(b,true,"history"); if(b.after_death) fail_s(K("dead"),"callback after the death of the servant"); as=SP(); s=SP(); mon::expect_no_live(K("live").c_str()); c.sig(shape(b)); }
SCENARIO(periodic,40,400){ c.chaos(); int n=c.rng.range(1,12),us=c.rng(3000); c.say("n=%d us=%d",n,us); Book b; std::atomic<bool> over{false}; SP as=mk_asio((size_t)1); auto s=mk_single(); TP t0=SC::now();
  { Px px(s,as,&b,1); px.periodic(n,us,&over).get(); Jobs j; j.add(as,c.rng(20),c.rng); j.check(as.thread_ids()); if(!mon::wait_for([&]{ return over.load(); },20)) fail_s(K("periodic_stuck"),"re-armed timer stopped"); mon::nap_us(300); }
  mon::wait_for([&]{ return b.dead.load(); },10); if(SC::now()-t0<US(n*us)) fail_s(K("periodic_fast"),"faster than the sum of the durations"); if((int)b.w.size()!=n) fail_s(K("periodic_count"),"number of expiries"); judge(b,true,"periodic"); for(auto&w:b.w) if(w->ec!=0) fail_s(K("periodic_ec"),"not reported as expired"); c.sig((uint64_t)n*10000+(uint64_t)us); }
// the servant dies with waits pending: none of its callbacks is called any more
SCENARIO(death,80,800){ c.chaos(); int nt=c.rng.range(1,4),n=c.rng.range(1,6); Book b; SP as=mk_asio(1); auto s=mk_single(); { Px px(s,as,&b,c.rng.next()); for(int i=0;i<n;++i) px.step(nt).get(); if(c.rng(2)) mon::nap_us(c.rng(3000)); }
  mon::wait_for([&]{ return b.dead.load(); },10); bool first=c.rng(2); if(first) as=SP(); else mon::nap_us(c.rng(5000)); s=SP(); as=SP(); if(b.after_death) fail_s(K("dead"),"callback after the death of the servant"); judge(b,false,"death"); mon::expect_no_live(K("live").c_str()); c.sig(shape(b)); }
// a pool of several asio threads: timers set once, and jobs
SCENARIO(several,80,800){ c.chaos(); size_t w=(size_t)c.rng.range(2,4); int n=c.rng.range(1,12),m=c.rng(40); c.say("w=%zu timers=%d jobs=%d",w,n,m); Book b; SP as=mk_asio(w); auto s=mk_single(); Jobs j;
  { Px px(s,as,&b,c.rng.next()); j.add(as,m/2,c.rng); px.singles(n,false).get(); px.mixed(m/3).get(); j.add(as,m/2,c.rng); j.check(as.thread_ids()); mon::wait_for([&]{ return b.pending==0; },20); mon::nap_us(300); px.close_all().get(); }
  mon::wait_for([&]{ return b.dead.load(); },10); judge(b,true,"several"); for(auto&x:b.w) if(x->ec!=0) fail_s(K("several_ec"),"not reported as expired"); c.sig(shape(b)+w); }
// functor given to the proxy: called in the thread of the timer's scheduler
SCENARIO(direct,60,600){ c.chaos(); int n=c.rng.range(1,10); SP as=mk_asio(1); auto id=as.thread_ids(); struct R { std::atomic<int> n{0}; int ec=-1; int bad=0; TP e,at; bool far=false; }; std::vector<std::unique_ptr<R>> rs; std::vector<std::unique_ptr<TM>> ts; std::atomic<int> left{0}; bool kill=c.rng(2); uint64_t sg=0;
  for(int i=0;i<n;++i){ rs.emplace_back(new R); R* r=rs.back().get(); r->far=c.rng(4)==0; US d=r->far?US(100000000):US(c.rng(5000)); r->e=SC::now()+d; ++left; mon::Token tk(i); auto f=[r,id,&left,tk,i](EC const& e){ r->at=SC::now(); r->ec=e?1:0; if(boost::this_thread::get_id()!=id[0]||tk.value()!=i) ++r->bad; ++r->n; --left; }; 
    if(c.rng(2)) ts.emplace_back(new TM(as,d,f)); else { ts.emplace_back(new TM(as,US(90000000))); ts.back()->reset(d,f); } mon::jitter(); }
  int far=0; for(auto&r:rs) far+=r->far; if(kill){ mon::nap_us(c.rng(3000)); ts.clear(); } if(!mon::wait_for([&]{ return left<=(kill?0:far); },20)) fail_s(K("direct_stuck"),fmt("%d of %d waits not ended",left.load(),n)); ts.clear(); if(!mon::wait_for([&]{ return left==0; },20)) fail_s(K("direct_drop"),"wait not ended by the end of its timer");
  as=SP(); for(auto&r:rs){ mon::ev(); sg=sg*3+(uint64_t)r->ec; if(r->n!=1) fail_s(K("direct_once"),fmt("called %d times",r->n.load())); if(r->bad) fail_s(K("direct_thread"),"not in the thread of the scheduler"); if(r->ec==0&&r->at<r->e) fail_s(K("direct_early"),"too early"); if(!kill&&!r->far&&r->ec!=0) fail_s(K("direct_ec"),"aborted without reason"); if(r->far&&r->ec==0) fail_s(K("direct_far"),"expired"); }
  mon::expect_no_live(K("live").c_str()); c.sig(sg); }
// work of all kinds on asio pools, alone and inside a composite: exactly once, in its threads
SCENARIO(work,60,600){ c.chaos(); size_t w=(size_t)c.rng.range(1,4); int n=c.rng.range(1,80); bool comp=c.rng(3)==0; c.say("w=%zu n=%d composite=%d",w,n,comp); std::vector<std::atomic<int>> ran((size_t)n); std::vector<std::future<int>> fu; std::vector<int> exp; std::atomic<int> bad{0}; std::set<boost::thread::id> seen; 
  { SP as=mk_asio(w), p=as; if(comp) p=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(mk_tp(2),as); auto v=p.thread_ids(); 
    for(int i=0;i<n;++i){ auto* x=&ran[(size_t)i]; int k=c.rng(4); mon::Token tk(i); size_t pr=(size_t)c.rng(6); if(k==0) p.post(ba::any_callable([x,v,&bad,tk,i]{ mon::ev(); if(std::find(v.begin(),v.end(),boost::this_thread::get_id())==v.end()||tk.value()!=i) ++bad; mon::jitter(); ++*x; if(i%3==0) throw std::runtime_error("x"); }),pr); else { fu.push_back(ba::post_future(p,[x,v,&bad,tk,i,k]{ mon::ev(); if(std::find(v.begin(),v.end(),boost::this_thread::get_id())==v.end()||tk.value()!=i) ++bad; mon::jitter(); ++*x; if(k==1) throw i; return i; },"",pr)); exp.push_back(k==1?-1-i:i); } }
    for(size_t i=0;i<fu.size();++i) try{ if(fu[i].get()!=exp[i]) ++bad; }catch(int e){ if(-1-e!=exp[i]) ++bad; } if(c.rng(2)) as=SP(); }
  for(auto&x:ran) if(x!=1) fail_s(K("work_once"),fmt("job executed %d times",x.load())); if(bad) fail_s(K("work_bad"),"wrong thread, value or result"); mon::expect_no_live(K("live").c_str()); c.sig((uint64_t)n*10+w); }
