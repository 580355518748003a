// P06 (PART 1,2): servant callbacks. P07 (PART 3): safe callbacks.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
using mon::Case;
typedef boost::thread::id Tid;
struct my_error : std::runtime_error { int id; my_error(int i):std::runtime_error("user"),id(i){} };
struct odd_error { int id; };

// ---- what the monitor records for one posted task
struct Rec { std::atomic<int> posted{0},task{0},cb{0}; bool must=false; };
struct Ledger { const char* pool; std::vector<Tid> sched_ids,pool_ids; std::vector<Rec> r; std::atomic<int> n{0}; std::atomic<int> in{0}; std::atomic<int> alive{0}; std::atomic<int> dtor{0}; std::atomic<uint64_t> trace{1}; std::atomic<long> cbs{0}; std::atomic<long> ops{0}; /* calls through the proxy which have been executed */
  Ledger(const char* p,int cap):pool(p),r(cap){}
  int next(){ int i=n.fetch_add(1); return i<(int)r.size()?i:-1; }
  void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+pool,m); }
  bool is(std::vector<Tid> const& v){ auto id=boost::this_thread::get_id(); for(auto&i:v) if(i==id) return true; return false; } };
struct Enter { Ledger* l; Enter(Ledger* x,const char* what):l(x){ mon::ev(); if(!l->is(l->sched_ids)) l->viol("thread",std::string(what)+" outside the thread of the servant"); if(l->in.exchange(1,std::memory_order_relaxed)) l->viol("overlap",std::string(what)+" while the servant is in use"); mon::jitter(); }
  ~Enter(){ mon::jitter(); l->in.store(0,std::memory_order_relaxed);} };

enum Kind { K_VOID,K_INT,K_TOKEN,K_THROW,K_ODD,K_CONT,K_CONT_THROW,K_THROW_VOID,K_NK };
struct CTask : ba::continuation_task<int> { int v,depth; bool fail; mon::Token t; std::atomic<int>* done; CTask(int x,int d,bool f,std::atomic<int>* dn):v(x),depth(d),fail(f),t(x),done(dn){}
  void operator()(){ auto res=this->this_task_result(); mon::jitter(); if(depth==0){ t.value(); if(fail) res.set_exception(std::make_exception_ptr(my_error(v))); else res.set_value(v); return; }
    ba::create_callback_continuation([res](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ try{ int a=std::get<0>(r).get(),b=std::get<1>(r).get(); res.set_value(a+b); }catch(...){ res.set_exception(std::current_exception()); } },CTask(v,depth-1,false,done),CTask(v,depth-1,fail,done)); } };

template<class JOB,class WJOB=JOB> struct Sub;   // trackable object living inside the servant's thread
template<class JOB,class WJOB> struct Sv : ba::trackable_servant<JOB,WJOB> {
  typedef ba::trackable_servant<JOB,WJOB> base; Ledger* L; mon::MToken tok; long plain=0; std::unique_ptr<Sub<JOB,WJOB>> sub; std::shared_ptr<std::atomic<bool>> stop;
  ba::any_shared_scheduler_proxy<WJOB> other; size_t cbprio;
  Sv(ba::any_weak_scheduler<JOB> w,Ledger* l,ba::any_shared_scheduler_proxy<WJOB> pool,ba::any_shared_scheduler_proxy<WJOB> oth,size_t prio):base(w,pool),L(l),tok(5),other(oth),cbprio(prio){ Enter e(L,"ctor"); L->alive=1; }
  Sv(Sv const&)=delete;
  ~Sv(){ Enter e(L,"dtor"); sub.reset(); L->alive=0; L->dtor++; tok.value(); }
  template<class T> void got(int id,int kind,ba::expected<T> const& ex,int chain){ Enter e(L,"callback"); tok.value(); ++plain; L->trace.store(mon::mix(L->trace.load(std::memory_order_relaxed)^id),std::memory_order_relaxed);
    if(!L->alive.load(std::memory_order_relaxed)) L->viol("dead","callback of a destroyed servant executed");
    int k=L->r[id].cb.fetch_add(1,std::memory_order_relaxed); if(k) L->viol("twice",mon::fmt("callback %d executed %d times",id,k+1)); int tsk=L->r[id].task.load(std::memory_order_relaxed); if(tsk!=1) L->viol("before-task",mon::fmt("callback %d (kind %d) executed, its task ran %d times",id,kind,tsk));
    L->cbs.fetch_add(1,std::memory_order_relaxed); (void)ex; if(chain>0) more(1,kind+1,chain-1,0); }
  void expect_exc(int id,std::exception_ptr p,bool odd){ if(!p){ L->viol("result","callback of a throwing task has no exception"); return; } try{ std::rethrow_exception(p); } catch(my_error& e){ if(odd||e.id!=id) L->viol("result","wrong exception in callback"); } catch(odd_error& e){ if(!odd||e.id!=id) L->viol("result","wrong exception in callback"); } catch(std::exception& e){ L->viol("result",std::string("foreign exception in callback: ")+e.what()); } catch(...){ L->viol("result","foreign exception in callback"); } }
  template<class F,class C> void send(int how,F f,C cb){ size_t p=cbprio; switch(how%5){
     case 0: this->post_callback(std::move(f),std::move(cb),"task",0,p); break;
     case 1: this->interruptible_post_callback(std::move(f),std::move(cb),"itask",0,p); break;
     case 2: this->post_callback(other,std::move(f),std::move(cb),"otask",0,p); break;
     case 3: this->interruptible_post_callback(other,std::move(f),std::move(cb),"iotask",0,p); break;
     default: this->call_callback(other,std::move(f),std::move(cb),"ctask",0,p); } }
  struct Op { Ledger* l; ~Op(){ l->ops++; } };
  void start(int cnt,int kind,int chain,int how){ Op o{L}; more(cnt,kind,chain,how); }
  void more(int cnt,int kind,int chain,int how){ for(int i=0;i<cnt;++i){ int id=L->next(); if(id<0) return; int k=(kind+i)%K_NK; L->r[id].posted=1; mon::Token t(id); Ledger* l=L; int h=how+i;
     auto pre=[l,id,t]{ mon::ev(); t.value(); if(!l->is(l->pool_ids)) l->viol("task-thread","task executed outside the pool"); int n=l->r[id].task.fetch_add(1,std::memory_order_relaxed); if(n) l->viol("task-twice",mon::fmt("task %d ran %d times",id,n+1)); mon::jitter(); };
     switch(k){
      case K_VOID: send(h,[pre]{ pre(); },[this,id,k,chain,t](ba::expected<void> e){ t.value(); try{ e.get(); }catch(...){ L->viol("result","exception of a task that did not throw"); } got(id,k,e,chain); }); break;
      case K_INT: send(h,[pre,id]{ pre(); return id*7; },[this,id,k,chain,t](ba::expected<int> e){ t.value(); try{ if(e.get()!=id*7) L->viol("result","wrong value in callback"); }catch(...){ L->viol("result","exception of a task that did not throw"); } got(id,k,e,chain); }); break;
      case K_TOKEN: send(h,[pre,id]{ pre(); return mon::MToken(id); },[this,id,k,chain,t](ba::expected<mon::MToken> e){ t.value(); try{ if(e.get().value()!=id) L->viol("result","wrong value in callback"); }catch(...){ L->viol("result","exception of a task that did not throw"); } got(id,k,e,chain); }); break;
      case K_THROW: send(h,[pre,id]{ pre(); throw my_error(id); return 1; },[this,id,k,chain,t](ba::expected<int> e){ t.value(); expect_exc(id,e.has_exception()?e.get_exception_ptr():std::exception_ptr(),false); got(id,k,e,chain); }); break;
      case K_THROW_VOID: send(h,[pre,id]{ pre(); throw my_error(id); },[this,id,k,chain,t](ba::expected<void> e){ t.value(); expect_exc(id,e.has_exception()?e.get_exception_ptr():std::exception_ptr(),false); got(id,k,e,chain); }); break;
      case K_ODD: send(h,[pre,id]{ pre(); throw odd_error{id}; return mon::Token(1); },[this,id,k,chain,t](ba::expected<mon::Token> e){ t.value(); expect_exc(id,e.has_exception()?e.get_exception_ptr():std::exception_ptr(),true); got(id,k,e,chain); }); break;
      case K_CONT: case K_CONT_THROW: { bool f=k==K_CONT_THROW; send(h,[pre,id,f]{ pre(); return ba::top_level_callback_continuation<int>(CTask(id,id%3,f,nullptr)); },[this,id,k,f,chain,t](ba::expected<int> e){ t.value(); if(f) expect_exc(id,e.has_exception()?e.get_exception_ptr():std::exception_ptr(),false); else try{ int w=id*(1<<(id%3)); if(e.get()!=w) L->viol("result","wrong value in callback"); }catch(...){ L->viol("result","exception of a task that did not throw"); } got(id,k,e,chain); }); break; } } } }
  void throwing_cb(int how){ Op o{L}; int id=L->next(); if(id<0) return; L->r[id].posted=1; Ledger* l=L; send(how,[l,id]{ l->r[id].task++; return id; },[this,id,how](ba::expected<int> e){ got(id,K_INT,e,0); if(how&1) throw my_error(id); throw odd_error{id}; }); }
  int count(){ Enter e(L,"count"); return (int)L->cbs.load(); }
  void make_sub(){ Enter e(L,"make_sub"); sub.reset(new Sub<JOB,WJOB>(*this)); }
  void sub_start(int n,int how){ Op o{L}; if(sub) sub->start(n,how); }
  void drop_sub(){ Enter e(L,"drop_sub"); sub.reset(); }
  void self_post(int n){ Op o{L}; for(int i=0;i<n;++i){ int id=L->next(); if(id<0) return; L->r[id].posted=1; mon::Token t(id); L->r[id].task=1; this->post_self([this,id,t]{ t.value(); ba::expected<void> e; got(id,K_VOID,e,0); },"self",cbprio); } }
  std::future<int> fut_post(int id){ Ledger* l=L; return this->post_future([l,id]{ if(!l->is(l->pool_ids)) l->viol("task-thread","task executed outside the pool"); return id+1; }); } };
template<class JOB,class WJOB> struct Sub : ba::trackable_servant<JOB,WJOB> { Ledger* L; Sv<JOB,WJOB>* parent; bool live=true; std::shared_ptr<bool> gone=std::make_shared<bool>(false); mon::Token tok{3};
  Sub(Sv<JOB,WJOB>& p):ba::trackable_servant<JOB,WJOB>(p.get_scheduler(),p.get_worker()),L(p.L),parent(&p){}
  ~Sub(){ *gone=true; }
  void start(int n,int how){ for(int i=0;i<n;++i){ int id=L->next(); if(id<0) return; L->r[id].posted=1; mon::Token t(id); Ledger* l=L; auto g=gone;
     auto f=[l,id,t]{ t.value(); l->r[id].task++; mon::jitter(); return id; }; auto cb=[this,l,g,id,t](ba::expected<int> e){ if(*g){ l->viol("dead","callback of a destroyed object executed in its thread"); return; } tok.value(); parent->got(id,K_INT,e,0); };
     if((how+i)%2) this->post_callback(std::move(f),std::move(cb),"sub",0,parent->cbprio); else this->interruptible_post_callback(std::move(f),std::move(cb),"isub",0,parent->cbprio); } } };
template<class JOB,class WJOB> struct Px : ba::servant_proxy<Px<JOB,WJOB>,Sv<JOB,WJOB>,JOB> { typedef typename ba::servant_proxy<Px<JOB,WJOB>,Sv<JOB,WJOB>,JOB>::callable_type callable_type; template<class S> Px(S s,Ledger* l,ba::any_shared_scheduler_proxy<WJOB> p,ba::any_shared_scheduler_proxy<WJOB> o,size_t prio):ba::servant_proxy<Px<JOB,WJOB>,Sv<JOB,WJOB>,JOB>(s,l,p,o,prio){}
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",0) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",0)
  BOOST_ASYNC_POST_MEMBER_LOG(start,"start") BOOST_ASYNC_POST_MEMBER_LOG(throwing_cb,"throwing_cb") BOOST_ASYNC_FUTURE_MEMBER_LOG(count,"count") BOOST_ASYNC_POST_MEMBER_LOG(make_sub,"make_sub") BOOST_ASYNC_POST_MEMBER_LOG(sub_start,"sub_start") BOOST_ASYNC_POST_MEMBER_LOG(drop_sub,"drop_sub") BOOST_ASYNC_POST_MEMBER_LOG(self_post,"self_post") BOOST_ASYNC_FUTURE_MEMBER_LOG(fut_post,"fut_post") };

template<class WJOB> void add_ids(std::vector<Tid>& v,ba::any_shared_scheduler_proxy<WJOB> const& p){ auto x=p.thread_ids(); v.insert(v.end(),x.begin(),x.end()); }
// mode 0: everything must be called back. mode 1: the servant dies while tasks are under way. mode 2: the same, and the scheduler proxies die first
template<class JOB,class WJOB,class MK,class MP> void cb_case(Case& c,const char* name,MK mk,MP mp,bool ids_fixed=true){
  c.chaos(); int mode=c.rng(3),ops=c.rng.range(1,c.rng.p(20)?60:20),callers=c.rng.range(1,3); bool oddcb=c.rng.p(25); bool block=c.rng.p(30);
  c.say("%s mode=%d ops=%d callers=%d throwing-callbacks=%d blocked-pool=%d",name,mode,ops,callers,oddcb,block);
  auto L=std::make_unique<Ledger>(name,callers*ops*8+200); 
  { auto sched=mk(); auto pool=mp(c); auto other=c.rng.p(50)?pool:mp(c); L->sched_ids=sched.thread_ids(); add_ids(L->pool_ids,pool); add_ids(L->pool_ids,other); if(!ids_fixed) L->pool_ids.clear();
    if(!ids_fixed){ /* pools whose threads come and go: any thread but the servant's */ }
    std::atomic<bool> gate{!block}; if(block) for(size_t i=0;i<pool.thread_ids().size();++i) pool.post(mkjob<WJOB>([&gate]{ while(!gate) mon::nap_us(50); }));
    { Px<JOB,WJOB> px(sched,L.get(),pool,other,0);
      if(mode==2&&c.rng.p(50)){ pool.reset(); other.reset(); } if(mode==2) sched.reset();
      std::vector<std::thread> th; for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,s,px]()mutable{ mon::Rng r(s); for(int i=0;i<ops;++i){ switch(r(8)){ default: px.start(r.range(1,4),r(K_NK),r.p(30)?r(3):0,r(5)); break; case 0: if(oddcb) px.throwing_cb(r(10)); break; case 1: px.self_post(r.range(1,3)); break; case 2: px.make_sub(); if(mode==0&&r.p(50)) break; px.sub_start(r(4),r(2)); if(r.p(50)) px.drop_sub(); break; case 3: px.sub_start(r(4),r(2)); break; case 4: if(!block||gate) try{ auto f=px.fut_post(i); auto g=f.get(); if(r.p(50)&&g.get()!=i+1) L->viol("result","wrong future"); }catch(std::exception& e){ L->viol("result",e.what()); } break; } mon::jitter(); } }); }
      if(block){ mon::nap_us(c.rng(1500)); }
      if(mode==0){ gate=true; for(auto&t:th) t.join(); th.clear(); 
        // chained callbacks: wait until no more come; the sub objects may have been replaced, which legally drops callbacks
        bool subs=false; (void)subs; int last=-1; mon::wait_for([&]{ int n=px.count().get(); int posted=std::min<int>(L->n.load(),(int)L->r.size()); if(n==posted) return true; last=n; return false; },0.25);
        mon::wait_for([&]{ int n=std::min<int>(L->n.load(),(int)L->r.size()); for(int i=0;i<n;++i) if(L->r[i].posted&&!L->r[i].task) return false; return true; },0.1); }
      else { if(c.rng.p(50)) mon::nap_us(c.rng(600)); for(auto&t:th) t.join(); if(mode==2) gate=true; if(!c.rng.p(30)) gate=true; } 
      if(mode!=0&&c.rng.p(50)) std::thread([p=std::move(px)]()mutable{ auto q=std::move(p); }).join();
    }
    if(mode==2) gate=true; if(c.rng.p(50)) sched.reset(); gate=true;
    if(!mon::wait_for([&]{ return L->dtor.load()==1; },25)) L->viol("dtor","servant not destroyed after its last proxy is gone");
    // pool, scheduler: destroyed here, all leftover tasks run or are dropped
    gate=true; }
  if(L->dtor!=1) L->viol("dtor",mon::fmt("servant destroyed %d times",L->dtor.load()));
  c.sig(L->trace.load()); mon::expect_no_live("leak:callbacks"); }
// exact variant: nothing is dropped, every callback is due exactly once
template<class JOB,class WJOB,class MK,class MP> void exact_case(Case& c,const char* name,MK mk,MP mp){
  c.chaos(); int ops=c.rng.range(1,c.rng.p(20)?60:20),callers=c.rng.range(1,3); bool oddcb=c.rng.p(40); std::atomic<long> sent{0}; 
  c.say("%s exact ops=%d callers=%d throwing-callbacks=%d",name,ops,callers,oddcb);
  auto L=std::make_unique<Ledger>(name,callers*ops*40+200);
  { auto sched=mk(); auto pool=mp(c); auto other=c.rng.p(50)?pool:mp(c); L->sched_ids=sched.thread_ids(); add_ids(L->pool_ids,pool); add_ids(L->pool_ids,other);
    { Px<JOB,WJOB> px(sched,L.get(),pool,other,0); px.make_sub(); if(c.rng.p(50)) pool.reset(); if(c.rng.p(50)) other.reset();
      std::vector<std::thread> th; for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,s,px]()mutable{ mon::Rng r(s); for(int i=0;i<ops;++i){ switch(r(6)){ default: sent++; px.start(r.range(1,4),r(K_NK),r.p(30)?r(3):0,r(5)); break; case 0: if(oddcb) sent++, px.throwing_cb(r(10)); break; case 1: sent++; px.self_post(r.range(1,3)); break; case 2: sent++; px.sub_start(r(4),r(2)); break; } mon::jitter(); } }); }
      for(auto&t:th) t.join();
      auto done=[&]{ if(L->ops<sent) return false; /* a container with several queues executes calls out of order */ int n=px.count().get(); int posted=std::min<int>(L->n.load(),(int)L->r.size()); return n>=posted; };
      if(!mon::wait_for(done,25)){ int n=std::min<int>(L->n.load(),(int)L->r.size()); for(int i=0;i<n;++i) if(!L->r[i].cb){ L->viol("never",mon::fmt("callback %d never executed, its task ran %d times",i,L->r[i].task.load())); break; } }
      mon::nap_us(300); px.count().get(); int n=std::min<int>(L->n.load(),(int)L->r.size()); for(int i=0;i<n;++i) if(L->r[i].cb!=1||L->r[i].task!=1) { L->viol("count",mon::fmt("task %d ran %d times, its callback %d times",i,L->r[i].task.load(),L->r[i].cb.load())); break; }
    } }
  if(L->dtor!=1) L->viol("dtor",mon::fmt("servant destroyed %d times",L->dtor.load()));
  c.sig(L->trace.load()); mon::expect_no_live("leak:callbacks"); }
typedef ba::any_callable J0;
template<class JOB> ba::any_shared_scheduler_proxy<JOB> single(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<JOB>>>(); }
template<class JOB> ba::any_shared_scheduler_proxy<JOB> tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<JOB>>>((size_t)n); }
#define CB(nm,q,S,W,MK,MP) static mon::Reg r1_##nm(#nm,[](Case& c){ cb_case<S,W>(c,#nm,[&c]{ (void)c; return MK; },[](Case& c){ (void)c; return MP; }); },q,q*20); static mon::Reg r2_##nm(#nm "_exact",[](Case& c){ exact_case<S,W>(c,#nm,[&c]{ (void)c; return MK; },[](Case& c){ (void)c; return MP; }); },q,q*20);
#if PART==1
CB(single_tp,60,AC,AC,single<AC>(),tp<AC>(c.rng.range(1,4)))
CB(deque_mq,40,AC,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<>>>(),ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)c.rng.range(1,4)))
CB(list_single,30,AC,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::threadsafe_list<>>>(),single<AC>())
#elif PART==2
static SP comp(Case& c){ SP a=tp<AC>(c.rng.range(1,2)),b=ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)c.rng.range(1,2)); return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a,b); }
CB(prio_composite,40,AC,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>>>(ba::any_queue_container_config<ba::lockfree_queue<>>(2)),comp(c))
CB(log_tp,40,AL,AL,single<AL>(),tp<AL>(c.rng.range(1,4)))
CB(asio_asio,30,AC,AC,ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)1),ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)c.rng.range(1,3)))
#endif
#if PART==3
// ---------------------------------------------------------------- P07
struct SLed { const char* pool; std::vector<Tid> ids; std::atomic<int> in{0},alive{0},dtor{0}; std::vector<std::atomic<int>> last; std::atomic<long> ran{0}; std::atomic<uint64_t> trace{1}; SLed(const char* p,int k):pool(p),last(k){ for(auto&x:last) x=-1; }
  void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+pool,m); } };
struct SEnter { SLed* l; bool nested; SEnter(SLed* x,const char* what):l(x){ mon::ev(); auto id=boost::this_thread::get_id(); if(id!=l->ids[0]) l->viol("thread",std::string(what)+" outside the thread of the servant"); nested=l->in.exchange(1,std::memory_order_relaxed); mon::jitter(); }
  ~SEnter(){ mon::jitter(); if(!nested) l->in.store(0,std::memory_order_relaxed); } };
typedef std::function<void(int,int,mon::Token)> SCB; typedef std::function<void(std::string const&,std::shared_ptr<int>)> SCB2; typedef std::function<void()> SCB0;
template<class JOB> struct S7 : ba::trackable_servant<JOB> { SLed* L; mon::MToken tok{9}; long plain=0; struct Part; std::unique_ptr<Part> part;
  struct Part : ba::trackable_servant<JOB> { SLed* L; std::shared_ptr<bool> gone=std::make_shared<bool>(false); Part(S7& s):ba::trackable_servant<JOB>(s.get_scheduler()),L(s.L){} ~Part(){ *gone=true; }
    SCB0 cb(bool post,std::shared_ptr<std::atomic<int>> n){ auto g=gone; auto l=L; std::function<void()> f=[this,g,l,n]{ SEnter e(l,"part callback"); if(*g) l->viol("dead","safe callback of a destroyed object executed"); n->fetch_add(1); }; return post?this->make_safe_post_callback(f):this->make_safe_callback(f); } };
  S7(ba::any_weak_scheduler<JOB> w,SLed* l):ba::trackable_servant<JOB>(w),L(l){ SEnter e(L,"ctor"); L->alive=1; }
  ~S7(){ SEnter e(L,"dtor"); if(e.nested) L->viol("overlap","destructor while in use"); part.reset(); L->alive=0; L->dtor++; }
  void body(int k,int s,mon::Token t,bool order){ SEnter e(L,"safe callback"); tok.value(); if(!L->alive.load(std::memory_order_relaxed)) L->viol("dead","safe callback executed after the servant's death"); if(t.value()!=s) L->viol("arg","argument corrupted"); ++plain;
    int l=L->last[k].exchange(s,std::memory_order_relaxed); if(order){ if(s==l) L->viol("twice","safe callback executed twice for one call"); else if(s<l) L->viol("order",mon::fmt("caller %d: call %d executed after %d",k,s,l)); else if(s!=l+1) L->viol("lost",mon::fmt("caller %d: call %d executed right after %d",k,s,l)); } L->ran.fetch_add(1,std::memory_order_relaxed); L->trace.store(mon::mix(L->trace.load(std::memory_order_relaxed)^(k*9999+s)),std::memory_order_relaxed); }
  SCB make(bool post){ mon::Token cap(1); SCB f=[this,cap](int k,int s,mon::Token t){ cap.value(); body(k,s,std::move(t),true); }; return post?this->make_safe_post_callback(f,"safe"):this->make_safe_callback(f,"safe"); }
  SCB2 make2(int w){ SCB2 f=[this,w](std::string const& s,std::shared_ptr<int> p){ SEnter e(L,"safe callback 2"); if(s!=std::string(40,'a'+w)||*p!=w) L->viol("arg","argument corrupted"); ++*p; }; return this->make_safe_callback(f); }
  SCB0 thrower(int how,std::shared_ptr<std::atomic<int>> n){ SCB0 f=[this,how,n]{ SEnter e(L,"throwing safe callback"); n->fetch_add(1); if(how==0) throw my_error(1); if(how==1) throw odd_error{1}; }; return this->make_safe_callback(f); }
  std::function<bool()> alive(){ return this->make_check_alive_functor(); }
  void flush(){ SEnter e(L,"flush"); }
  // called from inside the servant: the plain form is immediate, the posting form is not
  std::string inside(int n){ SEnter e(L,"inside"); std::string err; int done=0; SCB0 imm=this->make_safe_callback(SCB0([&done]{ ++done; })); auto pc=std::make_shared<int>(0); SCB0 pst=this->make_safe_post_callback(SCB0([pc]{ ++*pc; }));
    for(int i=0;i<n;++i){ imm(); if(done!=i+1) err="immediate execution requested in the servant's thread, the function was not executed before returning"; pst(); if(*pc) err="posting safe callback executed immediately"; } keep=pc; return err; }
  std::shared_ptr<int> keep; int kept(){ return *keep; }
  // an immediate call may nest: a safe callback called from a safe callback
  std::string nest(int depth){ std::string err; int cnt=0; std::function<void(int)> f; f=[&](int d){ ++cnt; if(d>0) this->make_safe_callback(std::function<void(int)>(f))(d-1); }; this->make_safe_callback(std::function<void(int)>(f))(depth); for(int how=0;how<2;++how){ bool ran=false,esc=false; SCB0 t=this->make_safe_callback(SCB0([how,&ran]{ ran=true; if(how) throw odd_error{2}; throw my_error(2); })); try{ t(); }catch(...){ esc=true; } if(!ran) err="throwing safe callback not executed"; if(esc) err="an exception of the wrapped function reached the caller of the safe callback"; }
    if(cnt!=depth+1) err=mon::fmt("%d of %d nested immediate calls executed",cnt,depth+1); return err; }
  SCB0 mk_part(bool post,std::shared_ptr<std::atomic<int>> n){ SEnter e(L,"mk_part"); part.reset(new Part(*this)); return part->cb(post,n); }
  int drop_part(SCB0 cb,std::shared_ptr<std::atomic<int>> n,bool call){ SEnter e(L,"drop_part"); part.reset(); int v=n->load(); if(call) cb(); return v; } };
template<class JOB> struct P7 : ba::servant_proxy<P7<JOB>,S7<JOB>,JOB> { typedef typename ba::servant_proxy<P7<JOB>,S7<JOB>,JOB>::callable_type callable_type; template<class S> P7(S s,SLed* l):ba::servant_proxy<P7<JOB>,S7<JOB>,JOB>(s,l){}
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",0) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",0)
  BOOST_ASYNC_FUTURE_MEMBER_LOG(make,"make") BOOST_ASYNC_FUTURE_MEMBER_LOG(make2,"make2") BOOST_ASYNC_FUTURE_MEMBER_LOG(thrower,"thrower") BOOST_ASYNC_FUTURE_MEMBER_LOG(alive,"alive") BOOST_ASYNC_FUTURE_MEMBER_LOG(flush,"flush") BOOST_ASYNC_FUTURE_MEMBER_LOG(inside,"inside") BOOST_ASYNC_FUTURE_MEMBER_LOG(kept,"kept") BOOST_ASYNC_FUTURE_MEMBER_LOG(nest,"nest") BOOST_ASYNC_FUTURE_MEMBER_LOG(mk_part,"mk_part") BOOST_ASYNC_FUTURE_MEMBER_LOG(drop_part,"drop_part") };
template<class JOB,class MK> void safe_case(Case& c,const char* name,MK mk){
  c.chaos(); int callers=c.rng.range(1,5),per=c.rng.range(1,c.rng.p(20)?150:40),mode=c.rng(3); bool post=c.rng.p(50);
  c.say("%s callers=%d calls=%d mode=%d force-post=%d",name,callers,per,mode,post);
  auto L=std::make_unique<SLed>(name,callers);
  { auto sched=mk(); L->ids=sched.thread_ids(); auto px=std::make_unique<P7<JOB>>(sched,L.get()); 
    SCB cb=px->make(post).get(); SCB2 cb2=px->make2(3).get(); auto chk=px->alive().get(); if(!chk()) L->viol("alive","check-alive functor denies a living servant");
    if(mode==2) sched.reset();   // the servant dies with its scheduler
    std::atomic<bool> dropping{false}; std::vector<std::thread> th; std::atomic<long> called{0};
    for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,k,s,mine=cb]()mutable{ mon::Rng r(s); for(int i=0;i<per;++i){ if(r.p(10)){ SCB t=mine; mon::jitter(); mine=std::move(t); } mine(k,i,mon::Token(i)); called.fetch_add(1,std::memory_order_relaxed); if(r.p(5)) cb2(std::string(40,'d'),std::make_shared<int>(3)); mon::jitter(); } }); }
    if(mode==0){ for(auto&t:th) t.join(); th.clear(); px->flush().get(); if(L->ran!=called) L->viol("lost",mon::fmt("%ld of %ld calls executed although the servant is alive",L->ran.load(),called.load()));
      std::string e=px->inside(c.rng.range(1,5)).get(); if(!e.empty()) L->viol("immediate",e); px->flush().get(); if(px->kept().get()<1) L->viol("lost","posting safe callback made inside the servant not executed"); e=px->nest(c.rng(4)).get(); if(!e.empty()) L->viol("immediate",e);
      for(int how=0;how<3;++how){ auto n=std::make_shared<std::atomic<int>>(0); auto t=px->thrower(how,n).get(); t(); t(); px->flush().get(); if(*n!=2) L->viol("lost","throwing safe callback not executed for each call"); }
      // a part of the servant dies, the servant and its thread live on
      for(int i=0;i<3;++i){ auto n=std::make_shared<std::atomic<int>>(0); bool p2=c.rng.p(50); auto pcb=px->mk_part(p2,n).get(); int k=c.rng(4); std::thread ot([&]{ for(int j=0;j<k;++j){ pcb(); mon::jitter(); } }); bool early=c.rng.p(50); if(!early) ot.join(); int v=px->drop_part(pcb,n,c.rng.p(50)).get(); if(early) ot.join(); else if(v!=k) L->viol("lost",mon::fmt("%d of %d calls executed before the death of the object",v,k)); pcb(); px->flush().get(); if(*n!=v) L->viol("dead","safe callback executed after the death of its object"); }
      px.reset(); }
    else { mon::nap_us(c.rng(500)); px.reset(); for(auto&t:th) t.join(); th.clear(); }
    if(!mon::wait_for([&]{ return L->dtor.load()==1; },25)) L->viol("dtor","servant not destroyed");
    long r=L->ran; if(chk()) if(!mon::wait_for([&]{ return !chk(); },25)) L->viol("alive","check-alive functor reports a destroyed servant alive");
    for(int i=0;i<3;++i) cb(0,100000+i,mon::Token(100000+i)); if(c.rng.p(50)&&mode==1) ba::post_future(sched,[]{}).get(); 
    sched.reset(); for(int i=0;i<3;++i){ cb(0,200000+i,mon::Token(200000+i)); cb2("x",nullptr); } if(L->ran!=r) L->viol("dead","safe callback executed after the servant's death"); }
  if(L->dtor!=1) L->viol("dtor",mon::fmt("servant destroyed %d times",L->dtor.load()));
  c.sig(L->trace.load()); mon::expect_no_live("leak:safe-callbacks"); }
#define SC(nm,q,J,...) static mon::Reg reg_##nm(#nm,[](Case& c){ safe_case<J>(c,#nm,[&c]{ (void)c; return __VA_ARGS__; }); },q,q*20);
SC(safe_lockfree,100,AC,single<AC>())
SC(safe_deque,60,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<>>>())
SC(safe_list,40,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::threadsafe_list<>>>())
SC(safe_prio,40,AC,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>>>(ba::any_queue_container_config<ba::lockfree_queue<>>(1)))
SC(safe_log,50,AL,single<AL>())
SC(safe_asio,30,AC,ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)1))
#endif
