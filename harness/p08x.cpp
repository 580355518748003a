// P08: interruption reaches the subtasks of a continuation, wherever they are, and nothing else.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/continuation_task.hpp>
using mon::Case;
namespace {
struct T { const char* P; std::atomic<int> endless{0},stopped{0},shorts{0},inner{0}; std::atomic<bool> give_up{false}; std::atomic<bool> requested{false}; mon::Token tok{1}; void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+P,m); } };
struct Spec { int kind=0; /*0 endless leaf, 1 short leaf, 2 inner*/ int shape=0; std::vector<Spec> kids; };
static int endless(Spec const& s){ if(s.kind==0) return 1; int n=0; for(auto&k:s.kids) n+=endless(k); return n; }
static bool hasvec(Spec const& s){ if(s.kind==2&&s.shape==2) return true; for(auto&k:s.kids) if(hasvec(k)) return true; return false; }
static Spec gen(mon::Rng& g,int depth,bool top){ Spec s; if(!top&&(depth==0||g.p(55))){ s.kind=g.p(65)?0:1; return s; } s.kind=2; s.shape=g(3); int n=s.shape==2?g.range(1,5):3; for(int i=0;i<n;++i) s.kids.push_back(gen(g,depth-1,false)); return s; }
template<class J> struct N : ba::continuation_task<int> { T* t; Spec s; mon::Token tok{2}; N(T* x,Spec y):t(x),s(std::move(y)){}
  void operator()(){ auto res=this->this_task_result(); mon::ev(); tok.value();
    if(s.kind==0){ t->endless++; try{ double t0=mon::now(); for(;;){ boost::this_thread::interruption_point(); boost::this_thread::sleep_for(boost::chrono::microseconds(50)); if(t->give_up) break; if(mon::now()-t0>30) break; } }catch(boost::thread_interrupted&){ t->stopped++; if(!t->requested) t->viol("unrequested","subtask interrupted although nobody asked for it"); res.set_exception(std::current_exception()); return; } res.set_value(1); return; }
    if(s.kind==1){ t->shorts++; mon::jitter(); res.set_value(1); return; }
    t->inner++; mon::jitter(); auto k=s.kids;
    if(s.shape==0) ba::create_callback_continuation_job<J>([res](std::tuple<ba::expected<int>,ba::expected<int>,ba::expected<int>> r)mutable{ try{ res.set_value(std::get<0>(r).get()+std::get<1>(r).get()+std::get<2>(r).get()); }catch(...){ res.set_exception(std::current_exception()); } },N(t,k[0]),N(t,k[1]),N(t,k[2]));
    else if(s.shape==1) ba::create_callback_continuation_job<J>([res](std::tuple<ba::expected<int>,ba::expected<int>,ba::expected<int>> r)mutable{ try{ res.set_value(std::get<0>(r).get()+std::get<1>(r).get()+std::get<2>(r).get()); }catch(...){ res.set_exception(std::current_exception()); } },std::make_tuple(ba::expected<int>(),ba::expected<int>(),ba::expected<int>()),std::make_tuple(N(t,k[0]),N(t,k[1]),N(t,k[2])));
    else { std::vector<N> v; for(auto&x:k) v.emplace_back(t,x); ba::create_callback_continuation_job<J>([res](std::vector<ba::expected<int>> r)mutable{ try{ int n=0; for(auto&x:r) n+=x.get(); res.set_value(n); }catch(...){ res.set_exception(std::current_exception()); } },std::move(v)); } } };
template<class J> struct Sv : ba::trackable_servant<AC,J> { T* t; std::atomic<int>* cb; Sv(ba::any_weak_scheduler<AC> w,ba::any_shared_scheduler_proxy<J> p,T* x,std::atomic<int>* c):ba::trackable_servant<AC,J>(w,p),t(x),cb(c){}
  ba::any_interruptible go(Spec s){ T* x=t; auto c=cb; return this->interruptible_post_callback([x,s]{ return ba::top_level_callback_continuation_job<int,J>(N<J>(x,s)); },[c](ba::expected<int> e){ (*c)+=e.has_exception()?1:100; }); } };
template<class J> struct Px : ba::servant_proxy<Px<J>,Sv<J>,AC> { typedef typename ba::servant_proxy<Px<J>,Sv<J>,AC>::callable_type callable_type; template<class S> Px(S s,ba::any_shared_scheduler_proxy<J> p,T* t,std::atomic<int>* c):ba::servant_proxy<Px<J>,Sv<J>,AC>(s,p,t,c){} BOOST_ASYNC_FUTURE_MEMBER(go) };
// mode 0: everything which can run does, the rest is queued. 1: at any time. 2: the task itself still runs, too. 3: two continuations in one task
template<class J> void subs(Case& c,const char* name,ba::any_shared_scheduler_proxy<J> pool,int w){ c.chaos(); int mode=c.rng(4); bool servant=mode<2&&c.rng.p(30); Spec s=gen(c.rng,c.rng.range(1,3),true); int E=endless(s); c.say("%s workers=%d mode=%d endless=%d servant=%d chaos=%d",name,w,mode,E,servant,mon::S().chaos.load());
  T t; t.P=name; std::atomic<int> cb{0}; uint64_t sig=1;
  { SP ss; std::unique_ptr<Px<J>> px; std::future<int> f; ba::any_interruptible h; std::atomic<bool> top{false};
    if(servant){ ss=mk_single(); px=std::make_unique<Px<J>>(ss,pool,&t,&cb); h=px->go(s).get(); }
    else { T* x=&t; auto r=ba::interruptible_post_future(pool,[x,s,mode,&top]{ auto k=ba::top_level_callback_continuation_job<int,J>(N<J>(x,s)); if(mode==3){ Spec s2=s; auto k2=ba::top_level_callback_continuation_job<int,J>(N<J>(x,s2)); (void)k2; } top=true; if(mode==2){ double t0=mon::now(); while(!x->give_up&&mon::now()-t0<30) { boost::this_thread::interruption_point(); boost::this_thread::sleep_for(boost::chrono::microseconds(50)); } } return k; },"top"); f=std::move(std::get<0>(r)); h=std::get<1>(r); }
    // a vector continuation executes its last subtask in the calling thread: the number of free workers is not known then, only that the others are busy
    bool exact=mode==0&&E>0; if(exact){ int want=std::min(w,E); if(!mon::wait_for([&]{ return t.endless>=want; },25)) t.viol("stuck",mon::fmt("%d of %d subtasks which can run do",t.endless.load(),want)); }
    else if(c.rng.p(70)) mon::nap_us(c.rng(400));
    t.requested=true; ba::any_interruptible h2(h); h2.interrupt(); if(c.rng.p(30)) h2.interrupt(); int started=t.endless;
    if(!mon::wait_for([&]{ return t.stopped==t.endless; },25)) { t.viol("not-stopped",mon::fmt("%d of %d running subtasks stopped after the interruption of the task which created them",t.stopped.load(),t.endless.load())); t.give_up=true; }
    if(!servant){ if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready){ t.viol("never-ready","future of an interrupted task with continuation never ready"); t.give_up=true; } else { bool exc=false; try{ f.get(); }catch(...){ exc=true; } if(exact&&!exc) t.viol("phantom","interrupted task with endless subtasks has a result"); } }
    else if(exact) { if(!mon::wait_for([&]{ return cb>0; },0.5)) {} }
    std::vector<std::future<int>> g; for(int i=0;i<w+1;++i) g.push_back(ba::post_future(pool,[]{ boost::this_thread::interruption_point(); return 7; },"later")); for(auto&x:g){ if(x.wait_for(std::chrono::seconds(25))!=std::future_status::ready){ t.viol("never-ready","worker not free after the interruption"); t.give_up=true; } else try{ x.get(); }catch(...){ t.viol("bystander","later task interrupted"); } }
    if(exact&&!hasvec(s)&&t.endless!=started) t.viol("not-dropped",mon::fmt("%d subtasks started after interrupt() returned",t.endless.load()-started));
    if(!mon::wait_for([&]{ return t.stopped==t.endless; },25)) t.viol("not-stopped","a subtask started after the interruption and was not stopped"); t.give_up=true;
    if(cb>=100&&E>0) t.viol("callback","callback with a result although the task was interrupted"); else if(cb>1&&cb!=100) t.viol("callback","callback called twice"); /* without endless subtasks it may have ended before */ px.reset(); ss.reset(); pool.reset(); }
  mon::count("subtasks_stopped",t.stopped); sig=mon::mix(t.endless*1000+t.stopped*77+t.shorts*13+t.inner+E*31337+mode); c.sig(sig); }
}
template<class J> static ba::any_shared_scheduler_proxy<J> tpn(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<J>>>((size_t)n); }
#define S8(nm,q,J,MK) SCENARIO(nm,q,q*25){ int w=c.rng.range(2,4); subs<J>(c,#nm,MK,w); mon::expect_no_live("leak:subs"); }
S8(subs_tp,120,AC,tpn<AC>(w))
S8(subs_mq,60,AC,ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::guarded_deque<>>>((size_t)w))
S8(subs_log,60,AL,tpn<AL>(w))
