// P08: interruption of tasks: not-started ones never run, running ones stop at an interruption point, nobody else is touched.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
using mon::Case;
typedef ba::any_interruptible Handle;
enum Form { F_INT,F_VOID,F_RAW,F_CB,F_CONT,F_SELF, F_PLAIN,F_PLAIN_CONT,F_N };   // the last two are bystanders which nobody can interrupt
static bool bystander(int f){ return f>=F_PLAIN; }
enum Beh { B_SHORT,B_POINTS,B_ENDLESS,B_DEAF,B_CV,B_N };                          // behaviour of the body
struct Rec { int form=0,beh=0; std::atomic<int> started{0},finished{0},hit{0},cb{0},cbexc{0}; std::atomic<int> requested{0}; std::atomic<int> sub{0}; bool before=false; std::future<int> fi; std::future<void> fv; bool has=false; Handle h; bool hh=false; };
struct Tab { const char* pool; std::vector<std::unique_ptr<Rec>> r; std::atomic<uint64_t> trace{1}; std::atomic<bool> stop{false}; void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+pool,m); } };
static void points(mon::Rng& r,int n){ for(int i=0;i<n;++i){ boost::this_thread::interruption_point(); if(r.p(30)) boost::this_thread::sleep_for(boost::chrono::microseconds(r(60))); mon::jitter(); } boost::this_thread::interruption_point(); }
struct Body { Tab* t; int id; mon::Token tok; uint64_t seed; Body(Tab* x,int i,uint64_t s):t(x),id(i),tok(i),seed(s){}
  int run() const { Rec& r=*t->r[id]; mon::ev(); tok.value(); int n=r.started.fetch_add(1); if(n) t->viol("twice",mon::fmt("task %d started %d times",id,n+1)); t->trace.store(mon::mix(t->trace.load(std::memory_order_relaxed)^id),std::memory_order_relaxed); mon::Rng g(seed);
    try{ switch(r.beh){ case B_SHORT: mon::jitter(); break; case B_POINTS: points(g,g(12)); break;
           case B_ENDLESS: { double t0=mon::now(); for(;;){ points(g,1); boost::this_thread::sleep_for(boost::chrono::microseconds(50)); if(t->stop.load()&&!r.requested.load()) break; if(mon::now()-t0>25){ t->viol("not-stopped",mon::fmt("running task %d form %d not stopped at an interruption point 25 s after the request %d",id,r.form,r.requested.load())); break; } } break; }
           case B_DEAF: mon::nap_us(g(300)); break;
           case B_CV: { boost::mutex m; boost::condition_variable cv; boost::mutex::scoped_lock l(m); cv.wait_for(l,boost::chrono::microseconds(g(400)),[]{return false;}); break; } } }
    catch(boost::thread_interrupted&){ r.hit.fetch_add(1); if(!r.requested.load()) t->viol(bystander(r.form)?"bystander":"unrequested",mon::fmt("task %d (form %d) was interrupted although nobody asked for it",id,r.form)); throw; }
    r.finished.fetch_add(1); mon::jitter(); return id*3; }
  int operator()() const { return run(); } };
template<class JOB> struct CT2 : ba::continuation_task<int> { Tab* t; int id,depth; mon::Token tok; bool check; CT2(Tab* x,int i,int d,bool c):t(x),id(i),depth(d),tok(i),check(c){}
  void operator()(){ auto res=this->this_task_result(); mon::ev(); mon::jitter(); try{ if(depth==0){ boost::this_thread::interruption_point(); t->r[id]->sub.fetch_add(1); res.set_value(1); return; } }
    catch(boost::thread_interrupted&){ if(check) t->viol("bystander",mon::fmt("subtask of task %d was interrupted although nobody asked for it",id)); res.set_exception(std::current_exception()); return; }
    ba::create_callback_continuation_job<JOB>([res](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ try{ int a=std::get<0>(r).get(),b=std::get<1>(r).get(); res.set_value(a+b); }catch(...){ res.set_exception(std::current_exception()); } },CT2(t,id,depth-1,check),CT2(t,id,depth-1,check)); } };
// raw job: the exception thread_interrupted leaves the job itself
struct Raw { Body b; void operator()(){ b.run(); } };

template<class WJOB> struct Sv : ba::trackable_servant<AC,WJOB> { Tab* t; Sv(ba::any_weak_scheduler<AC> w,Tab* x,ba::any_shared_scheduler_proxy<WJOB> p):ba::trackable_servant<AC,WJOB>(w,p),t(x){}
  Handle cb(int id,uint64_t s){ Body b(t,id,s); Tab* tt=t; return this->interruptible_post_callback([b]{ return b.run(); },[tt,id](ba::expected<int> e){ Rec& r=*tt->r[id]; r.cbexc=e.has_exception(); if(!e.has_exception()&&e.get()!=id*3) tt->viol("result","wrong value"); r.cb++; }); }
  std::pair<std::shared_ptr<std::future<int>>,Handle> self(int id,uint64_t s){ Body b(t,id,s); auto x=this->interruptible_post_self([b]{ return b.run(); }); return {std::make_shared<std::future<int>>(std::move(std::get<0>(x))),std::get<1>(x)}; }
  void plain(int id,uint64_t s){ mon::Rng g(s); Rec& r=*t->r[id]; r.started++; try{ points(g,3); }catch(boost::thread_interrupted&){ t->viol("bystander","servant member interrupted although nobody asked for it"); } r.finished++; } };
template<class WJOB> struct Px : ba::servant_proxy<Px<WJOB>,Sv<WJOB>,AC> { typedef typename ba::servant_proxy<Px<WJOB>,Sv<WJOB>,AC>::callable_type callable_type; template<class S> Px(S s,Tab* t,ba::any_shared_scheduler_proxy<WJOB> p):ba::servant_proxy<Px<WJOB>,Sv<WJOB>,AC>(s,t,p){}
  BOOST_ASYNC_FUTURE_MEMBER(cb) BOOST_ASYNC_FUTURE_MEMBER(self) BOOST_ASYNC_FUTURE_MEMBER(plain) };

template<class JOB,class P,class PX> void submit(Case& c,Tab& t,int id,P& pool,PX& px){ Rec& r=*t.r[id]; uint64_t s=c.rng.next(); Body b(&t,id,s);
  switch(r.form){
   case F_INT: { auto x=ba::interruptible_post_future(pool,[b]{ return b.run(); },"int"); r.fi=std::move(std::get<0>(x)); r.h=std::get<1>(x); r.hh=r.has=true; break; }
   case F_VOID: { auto x=ba::interruptible_post_future(pool,[b]{ b.run(); },"void"); r.fv=std::move(std::get<0>(x)); r.h=std::get<1>(x); r.hh=r.has=true; break; }
   case F_RAW: { r.h=pool.interruptible_post(mkjob<JOB>([b]{ b.run(); },"raw")); r.hh=true; break; }
   case F_CB: { r.h=px->cb(id,s).get(); r.hh=true; break; }
   case F_CONT: { int d=(int)(s%4); r.beh=d; Tab* tt=&t; auto x=ba::interruptible_post_future(pool,[tt,id,d,b]{ tt->r[id]->started++; b.tok.value(); return ba::top_level_callback_continuation_job<int,JOB>(CT2<JOB>(tt,id,d,false)); },"cont"); r.fi=std::move(std::get<0>(x)); r.h=std::get<1>(x); r.hh=r.has=true; break; }
   case F_SELF: { auto x=px->self(id,s).get(); r.fi=std::move(*x.first); r.h=x.second; r.hh=r.has=true; break; }
   case F_PLAIN: { r.fi=ba::post_future(pool,[b]{ return b.run(); },"plain"); r.has=true; break; }
   case F_PLAIN_CONT: { int d=(int)(s%4); r.beh=d; Tab* tt=&t; r.fi=ba::post_future(pool,[tt,id,d,b]{ tt->r[id]->started++; b.tok.value(); return ba::top_level_callback_continuation_job<int,JOB>(CT2<JOB>(tt,id,d,true)); },"plain-cont"); r.has=true; break; } } }

template<class F> int outcome(F& f,bool& ready,int want,std::string& what){ ready=f.wait_for(std::chrono::seconds(25))==std::future_status::ready; if(!ready) return -1; try{ if constexpr(std::is_same<F,std::future<void>>::value) f.get(); else { int v=f.get(); if(want>=0&&v!=want) what=mon::fmt("value %d instead of %d",v,want); } return 1; } catch(std::exception& e){ what=e.what(); return 0; } catch(boost::thread_interrupted&){ what="thread_interrupted"; return 0; } catch(...){ what="?"; return 0; } }
static void judge(Tab& t,bool never_dropped){ // never_dropped: the scheduler outlived the tasks (otherwise continuations have nowhere to post their subtasks)
   for(size_t i=0;i<t.r.size();++i){ Rec& r=*t.r[i]; std::string what; bool ready=true; int o=-1; bool cont=r.form==F_CONT||r.form==F_PLAIN_CONT; int want=cont?(1<<r.beh):(int)i*3; std::string who=mon::fmt("task %zu form %d behaviour %d requested %d started %d finished %d hit %d: ",i,r.form,r.beh,r.requested.load(),r.started.load(),r.finished.load(),r.hit.load());
    if(r.has){ if(r.form==F_VOID) o=outcome(r.fv,ready,-1,what); else o=outcome(r.fi,ready,want,what); if(!ready){ t.viol("never-ready",who+"future never ready"); continue; } if(o==1&&!what.empty()) t.viol("result",who+what); }
    else if(r.form==F_RAW) { if(!mon::wait_for([&]{ return r.finished||r.hit||(r.requested&&!r.started); },25)&&!r.requested) t.viol("lost",who+"raw task never executed"); }
    else if(r.form==F_CB) { if(!r.requested&&!mon::wait_for([&]{ return r.cb>0; },25)) t.viol("no-callback",who+"callback never called"); if(r.started&&!mon::wait_for([&]{ return r.cb>0; },25)) t.viol("no-callback",who+"task started, callback never called"); if(!r.started&&r.cb) t.viol("callback","callback of a task that never started called"); if(r.cb>1) t.viol("callback",who+"callback called twice"); if(r.cb) o=!r.cbexc; }
    bool req=r.requested; if(cont&&!never_dropped){ if(r.started>1||r.sub>want) t.viol("twice",who+"executed twice"); } else if(!req){ if(r.started!=1) t.viol("not-run",who+mon::fmt("started %d times although not interrupted, %s",r.started.load(),what.c_str())); else if(r.form!=F_RAW&&o!=1) t.viol("lost-result",who+"has no result although not interrupted: "+what); else if(!cont&&!r.finished) t.viol("not-finished",who+"not finished"); if(r.form==F_PLAIN_CONT&&r.sub!=want) t.viol("lost-subtask",who+mon::fmt("%d of %d subtasks executed",r.sub.load(),want)); }
    else { if(r.before&&r.started) t.viol("started",who+"interrupted before its start, but executed"); if(!cont&&o==1&&!r.finished) t.viol("phantom",who+"result without finishing"); if(!cont&&r.finished&&o==0) t.viol("finished-lost",who+"finished, but its result is lost: "+what); if(cont&&r.sub>want) t.viol("twice",who+"subtasks executed twice"); }
  } }
static void judge_tail(Tab& t,int k){ Tab u; u.pool=t.pool; std::vector<std::unique_ptr<Rec>> keep; size_t n=t.r.size(); for(size_t i=n-k;i<n;++i){ Rec& r=*t.r[i]; bool ready; std::string what; int o=outcome(r.fi,ready,r.form==F_PLAIN_CONT?(1<<r.beh):(int)i*3,what); if(!ready) t.viol("never-ready","later task never ready"); else if(o!=1||!what.empty()) t.viol("lost-result",mon::fmt("later task form %d: ",r.form)+what); } }
static const int MAXF=F_N;
template<class JOB,class MK> void int_case(Case& c,const char* name,MK mk,bool has_servant,bool self_ok){
  c.chaos(); int mode=c.rng(4); int n=c.rng.range(2,c.rng.p(20)?60:20); int intr=c.rng.range(1,3); 
  // mode 0: pool blocked, some interrupted before they can start. 1: race. 2: race with shutdown. 3: interrupts late / running ones
  c.say("%s mode=%d tasks=%d interrupters=%d chaos=%d",name,mode,n,intr,mon::S().chaos.load());
  Tab t; t.pool=name; t.r.reserve(n+64);
  std::vector<Handle> late; 
  { auto pool=mk(); SP ssched=mk_single(); std::unique_ptr<Px<JOB>> px; if(has_servant) px.reset(new Px<JOB>(ssched,&t,pool));
    std::atomic<bool> gate{mode!=0}; std::atomic<int> held{0}; size_t w=pool.thread_ids().size();
    std::vector<std::future<void>> bl; if(mode==0){ for(size_t i=0;i<w;++i) bl.push_back(ba::post_future(pool,[&]{ held++; while(!gate) mon::nap_us(50); },"block",0)); }
    std::vector<int> will(n,0);
    for(int i=0;i<n;++i){ auto r=std::make_unique<Rec>(); do r->form=c.rng(MAXF); while((!has_servant&&(r->form==F_CB||r->form==F_SELF))||(r->form==F_SELF&&!self_ok)); will[i]=!bystander(r->form)&&c.rng.p(mode==3?70:60); r->beh=c.rng(B_N); if(r->beh==B_ENDLESS&&(!will[i]||r->form==F_CONT||(mode==0&&r->form==F_SELF))) r->beh=B_POINTS; t.r.push_back(std::move(r)); }
    std::atomic<int> avail{0}; std::atomic<bool> alldone{false}; std::vector<std::thread> th;
    auto interrupt=[&](int i){ Rec& r=*t.r[i]; r.requested=1; mon::jitter(); Handle h(r.h); h.interrupt(); mon::ev(); };
    auto interrupter=[&](uint64_t s){ mon::Rng g(s); int done=0; std::vector<char> mine(n,0); while(done<n){ int a=avail.load(); for(int i=0;i<a;++i) if(!mine[i]){ mine[i]=1; ++done; if(will[i]){ if(mode==3) mon::nap_us(g(300)); else if(g.p(30)) mon::nap_us(g(150)); interrupt(i); if(g.p(40)) interrupt(i); } } mon::nap_us(20); } };
    if(mode!=0) for(int k=0;k<intr;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,s]{ interrupter(s); }); }
    for(int i=0;i<n;++i){ submit<JOB>(c,t,i,pool,px); avail=i+1; if(c.rng.p(20)) mon::nap_us(c.rng(80)); }
    if(mode==0){ bool allheld=mon::wait_for([&]{ return held.load()>=(int)w; },0.02);   // every worker is busy: nothing posted to the pool can start
      for(int i=0;i<n;++i) if(will[i]){ if(allheld&&t.r[i]->form!=F_SELF&&!t.r[i]->started) { t.r[i]->requested=1; Handle h(t.r[i]->h); h.interrupt(); t.r[i]->before=true; } else interrupt(i); if(c.rng.p(30)) interrupt(i); }
      gate=true; }
    if(mode==2){ t.stop=true; if(c.rng.p(50)){ px.reset(); ssched.reset(); } for(auto&r:t.r) if(r->hh) late.push_back(r->h);
      if(has_servant&&!px){ /* callbacks may be dropped with the servant */ for(auto&r:t.r) if(r->form==F_CB||r->form==F_SELF) r->form=-1; }
      pool.reset(); for(auto&x:th) x.join(); th.clear(); }
    else { for(auto&x:th) x.join(); th.clear(); }
    for(size_t i=0;i<t.r.size();++i) if(t.r[i]->form==-1){ Rec& r=*t.r[i]; if(r.has&&r.fi.wait_for(std::chrono::seconds(25))!=std::future_status::ready) t.viol("never-ready","future of a dead servant's task never ready"); r.form=F_N; r.has=false; r.requested=1; r.before=false; }
    judge(t,mode!=2);
    if(mode!=2){ // the workers are unharmed: later tasks with interruption points run to their end
      std::vector<std::future<void>> f; for(size_t i=0;i<w*2+2;++i){ uint64_t s=c.rng.next(); Tab* tt=&t; f.push_back(ba::post_future(pool,[tt,s]{ mon::Rng g(s); try{ points(g,5); }catch(boost::thread_interrupted&){ tt->viol("bystander","later task interrupted although nobody asked for it"); } },"after",0)); }
      for(auto&x:f) if(x.wait_for(std::chrono::seconds(25))!=std::future_status::ready) t.viol("never-ready","worker does not execute tasks any more");
      for(size_t i=0;i<t.r.size();++i) if(t.r[i]->hh&&c.rng.p(30)) { Handle h(t.r[i]->h); h.interrupt(); late.push_back(h); }   // finished long ago: no effect
      std::vector<std::future<int>> g; for(size_t i=0;i<w+1;++i){ t.r.push_back(std::make_unique<Rec>()); int id=(int)t.r.size()-1; t.r[id]->form=i%2?F_PLAIN:F_PLAIN_CONT; t.r[id]->beh=B_POINTS; submit<JOB>(c,t,id,pool,px); }
      judge_tail(t,(int)w+1); }
    if(c.rng.p(50)) px.reset();
    for(auto&x:bl) x.wait(); }
  for(auto&h:late){ Handle x(h); x.interrupt(); }          // the scheduler is gone: no effect, no crash
  c.sig(t.trace.load()); t.r.clear(); late.clear(); mon::expect_no_live("leak:interrupt"); }

#define IC(nm,q,J,SV,SELF,...) static mon::Reg reg_##nm(#nm,[](Case& c){ int_case<J>(c,#nm,[&c]{ (void)c; return __VA_ARGS__; },SV,SELF); },q*3,q*60);
template<class JOB> ba::any_shared_scheduler_proxy<JOB> tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<JOB>>>((size_t)n); }
typedef ba::lockfree_queue<> LQ; typedef ba::guarded_deque<> GD;
#if PART==1
IC(i_tp,60,AC,true,true,tp<AC>(c.rng.range(1,4)))
IC(i_single,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<GD>>())
IC(i_mq,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,4)))
#elif PART==2
IC(i_steal,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<GD,ba::no_cpu_load_saving,true>>((size_t)c.rng.range(1,4)))
IC(i_smq,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ,ba::default_find_position<>,ba::no_cpu_load_saving,true>>((size_t)c.rng.range(1,4)))
IC(i_comp,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(tp<AC>(c.rng.range(1,2)),SP(ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,2)))))
#elif PART==3
IC(i_asio,40,AC,true,true,ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)c.rng.range(1,3)))
IC(i_io,30,AC,true,true,ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<LQ>>((size_t)c.rng.range(1,2),(size_t)c.rng.range(2,4)))
IC(i_log,40,AL,true,true,tp<AL>(c.rng.range(1,4)))
// a worker posts an interruptible task elsewhere, interrupts it and goes on with work of its own
SCENARIO(i_poster,60,1200){ c.chaos(); bool asio=c.rng.p(60); int n=c.rng.range(1,12); c.say("poster asio=%d tasks=%d",asio,n);
  Tab t; t.pool="poster"; std::atomic<uint64_t> tr{1};
  { SP a=tp<AC>(c.rng.range(1,3)); SP b=asio?SP(ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)c.rng.range(1,2))):tp<AC>(c.rng.range(1,2)); std::vector<std::future<int>> f; std::vector<int> want;
    for(int i=0;i<n;++i){ t.r.push_back(std::make_unique<Rec>()); t.r.push_back(std::make_unique<Rec>()); }
    for(int i=0;i<n;++i){ int d=c.rng(4); bool intr=c.rng.p(70); Tab* tt=&t; want.push_back(1<<d); int id=2*i; t.r[id]->beh=B_POINTS; uint64_t s=c.rng.next(); if(intr) t.r[id]->requested=1;
      f.push_back(ba::post_future(a,[tt,id,d,b,intr,s,&tr]{ auto x=ba::interruptible_post_future(b,Body(tt,id,s)); mon::jitter(); if(intr) std::get<1>(x).interrupt(); try{ points(*std::make_unique<mon::Rng>(s),2); }catch(boost::thread_interrupted&){ tt->viol("bystander","poster interrupted"); } tr.store(mon::mix(tr.load()^id)); return ba::top_level_callback_continuation<int>(CT2<AC>(tt,id+1,d,true)); })); }
    for(int i=0;i<n;++i){ bool ready; std::string what; int o=outcome(f[i],ready,want[i],what); if(!ready) t.viol("never-ready","task which interrupted another one never ready"); else if(o!=1||!what.empty()) t.viol("lost-result","task which interrupted another one: "+what); } }
  c.sig(tr.load()); t.r.clear(); mon::expect_no_live("leak:interrupt"); }
#endif
