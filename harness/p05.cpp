// P05: futures deliver the task's result or exception exactly once, after the task and its whole continuation tree.
#include "pools.hpp"
#include <string>
#include <stdexcept>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/expected.hpp>
#if PART==1
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#elif PART==2
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#endif
using mon::Case;
struct my_error : std::runtime_error { int id; my_error(int i):std::runtime_error("user"),id(i){} };
struct odd_error { int id; };                     // not a std::exception
// no default constructor, copyable
struct NoDef { mon::Token t; int plain; explicit NoDef(int i):t(i),plain(i){} };
struct MoveOnly { std::unique_ptr<int> p; mon::MToken t; MoveOnly(){} explicit MoveOnly(int i):p(new int(i)),t(i){} };

// one posted task
struct Rec { int id=0, out=0, delay=0, leaves=0; int plain=0; std::atomic<int> ran{0}, finished{0}, leavesdone{0}; std::atomic<int> go{1}; };
template<class R> struct Mk; // build and read a result
template<> struct Mk<int>{ static int mk(int i){ return i*7+1; } static bool ok(int v,int i){ return v==i*7+1; } static const char* n(){ return "int"; } };
template<> struct Mk<MoveOnly>{ static MoveOnly mk(int i){ return MoveOnly(i); } static bool ok(MoveOnly const& v,int i){ return v.p&&*v.p==i&&v.t.value()==i; } static const char* n(){ return "move-only"; } };
template<> struct Mk<NoDef>{ static NoDef mk(int i){ return NoDef(i); } static bool ok(NoDef const& v,int i){ return v.plain==i&&v.t.value()==i; } static const char* n(){ return "no-default"; } };
template<> struct Mk<std::vector<std::string>>{ typedef std::vector<std::string> V; static V mk(int i){ return V(3,std::string(20,'a'+i%26)); } static bool ok(V const& v,int i){ return v==mk(i); } static const char* n(){ return "vector"; } };
template<> struct Mk<void>{ static const char* n(){ return "void"; } };

static void fail_now(Rec& r){ switch(r.out){ case 1: throw my_error(r.id); case 2: throw odd_error{r.id}; case 3: throw r.id; case 4: throw boost::asynchronous::task_aborted_exception(); } }
template<class R> struct Plain { Rec* r; mon::Token t;
  R operator()() const { if(t.value()!=r->id) mon::fail("task-corrupt","task carries a wrong object"); r->ran.fetch_add(1,std::memory_order_relaxed); mon::ev(); mon::jitter();
    if(r->delay) mon::nap_us(r->delay); r->plain=r->id+1; fail_now_f(); 
    if constexpr(std::is_same<R,void>::value) { r->finished.store(1,std::memory_order_relaxed); } else { R v=Mk<R>::mk(r->id); r->finished.store(1,std::memory_order_relaxed); return v; } }
  void fail_now_f() const { if(r->out){ r->finished.store(1,std::memory_order_relaxed); fail_now(*r); } } };
// tree of continuation tasks: leaves are counted, one of them may fail
template<class R,class JOBT> struct Tree : ba::continuation_task<R> { Rec* r; int depth; int width; bool failhere; int pos; mon::Token t;
  Tree(Rec* rr,int d,int w,bool f,int p):ba::continuation_task<R>("tree"),r(rr),depth(d),width(w),failhere(f),pos(p),t(rr->id){}
  void operator()() const { ba::continuation_result<R> tr=this->this_task_result(); Rec* q=r;
    try{ if(t.value()!=r->id) mon::fail("task-corrupt","subtask carries a wrong object"); mon::jitter(); mon::ev();
      if(depth==0){ if(r->delay&&pos%2) mon::nap_us(r->delay); r->leavesdone.fetch_add(1,std::memory_order_relaxed); if(failhere) fail_now(*r); set(tr,q); return; }
      int bad=failhere?pos%2:-1;
      auto done=[tr,q](std::tuple<ba::expected<R>,ba::expected<R>> res){ try{ std::get<0>(res).get(); std::get<1>(res).get(); set(tr,q);}catch(...){ tr.set_exception(std::current_exception()); } };
      ba::create_callback_continuation_job<JOBT>(std::move(done),Tree(r,depth-1,width,bad==0,pos*2),Tree(r,depth-1,width,bad==1,pos*2+1)); }
    catch(...){ tr.set_exception(std::current_exception()); } }
  static void set(ba::continuation_result<R> const& tr,Rec* q){ if constexpr(std::is_same<R,void>::value) tr.set_value(); else tr.set_value(Mk<R>::mk(q->id)); } };
template<class R,class JOB> struct ContTask { Rec* r; int depth; int pos; mon::Token t;
  auto operator()() const { r->ran.fetch_add(1,std::memory_order_relaxed); mon::ev(); mon::jitter(); 
    if(r->out&&pos<0){ r->finished.store(1,std::memory_order_relaxed); fail_now(*r); } // fails before creating its continuation
    return ba::top_level_callback_continuation_job<R,JOB>(Tree<R,JOB>(r,depth,2,r->out!=0,pos<0?0:pos)); } };

template<class R> static void judge(std::future<R>& f,Rec& r,const char* form,const char* pool){
  auto K=[&](const char* k){ return std::string(k)+":"+form+":"+Mk<R>::n(); };
  if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready){ mon::fail_s(K("never-ready"),mon::fmt("future of task %d (outcome %d, ran %d) not ready after 25 s on %s",r.id,r.out,r.ran.load(),pool)); f=std::future<R>(); return; }
  if(r.leaves){ if(r.leavesdone.load()!=r.leaves&&!(r.out&&!r.leavesdone)) mon::fail_s(K("early"),mon::fmt("future ready while %d of %d leaves of the task tree have run",r.leavesdone.load(),r.leaves)); }
  else if(!r.finished.load()) mon::fail_s(K("early"),"future ready before the task has finished");
  if(r.ran.load()!=1) mon::fail_s(K("ran"),mon::fmt("task ran %d times",r.ran.load()));
  int got=0; std::string what;
  try{ if constexpr(std::is_same<R,void>::value) f.get(); else { R v=f.get(); if(!Mk<R>::ok(v,r.id)) mon::fail_s(K("value"),"future carries a wrong value"); }
       if(!r.leaves&&r.plain!=r.id+1) mon::fail_s(K("visible"),"writes of the task are not visible to the holder of its future"); }
  catch(my_error& e){ got=1; if(e.id!=r.id) mon::fail_s(K("value"),"exception of another task"); }
  catch(odd_error& e){ got=2; if(e.id!=r.id) mon::fail_s(K("value"),"exception of another task"); }
  catch(int e){ got=3; if(e!=r.id) mon::fail_s(K("value"),"exception of another task"); }
  catch(ba::task_aborted_exception&){ got=4; }
  catch(std::exception& e){ got=9; what=e.what(); } catch(...){ got=10; }
  if(got!=r.out) mon::fail_s(K(r.out&&!got?"swallowed":"outcome"),mon::fmt("task outcome %d (0 value, 1-4 user exceptions) reported as %d %s on %s",r.out,got,what.c_str(),pool)); 
  mon::count(r.out?"exceptions delivered":"values delivered"); mon::ev(); }

template<class R,class S> static void post_one(Case& c,S const& sp,Rec& r,int form,std::vector<std::function<void()>>& js,const char* pool,size_t prio){
  typedef typename S::job_type JOB; static const char* F[]={"post","interruptible","continuation","interruptible-continuation"};
  std::shared_ptr<std::future<R>> fu; int d=c.rng(4);
  if(form==0) fu=std::make_shared<std::future<R>>(ba::post_future(sp,Plain<R>{&r,mon::Token(r.id)},"t",prio));
  else if(form==1){ auto t=ba::interruptible_post_future(sp,Plain<R>{&r,mon::Token(r.id)},"t",prio); fu=std::make_shared<std::future<R>>(std::move(std::get<0>(t))); }
  else { int pos=c.rng.p(20)?-1:c.rng(2); r.leaves=1<<d; if(pos<0&&r.out) r.leaves=0;
    if(form==2) fu=std::make_shared<std::future<R>>(ba::post_future(sp,ContTask<R,JOB>{&r,d,pos,mon::Token(r.id)},"t",prio));
    else { auto t=ba::interruptible_post_future(sp,ContTask<R,JOB>{&r,d,pos,mon::Token(r.id)},"t",prio); fu=std::make_shared<std::future<R>>(std::move(std::get<0>(t))); } }
  js.push_back([fu,&r,form,pool]{ judge<R>(*fu,r,F[form],pool); }); }

template<class MK> static void run_case(Case& c,const char* pool,MK mk,int maxw,int nprio=1){
  c.chaos(); int w=c.rng.range(1,maxw), waiters=c.rng.range(1,4), n=c.rng.range(4,40); bool drop=c.rng.p(30); uint64_t h=0;
  c.say("%s workers=%d waiters=%d tasks=%d drop=%d chaos=%d",pool,w,waiters,n,drop,mon::S().chaos.load());
  std::vector<std::unique_ptr<Rec>> rs; for(int i=0;i<n;++i){ rs.emplace_back(new Rec); rs[i]->id=i+1; rs[i]->out=c.rng.p(45)?c.rng.range(1,4):0; rs[i]->delay=c.rng.p(25)?c.rng(1500):0; h=mon::mix(h^rs[i]->out); }
  { auto sp=mk(w,c); std::vector<std::vector<std::function<void()>>> js(waiters); std::vector<std::thread> th; std::atomic<int> posted{0};
    for(int k=0;k<waiters;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,k,s]{ Case cc{mon::Rng(s),c.iter,s,"",false}; std::vector<std::function<void()>> mine;
      for(int i=k;i<n;i+=waiters){ int form=cc.rng(4), ty=cc.rng(5); size_t pr=cc.rng(nprio); if(drop&&form>=2) form-=2; // continuations need a live scheduler to post their subtasks to
        switch(ty){ case 0: post_one<void>(cc,sp,*rs[i],form,mine,pool,pr); break; case 1: post_one<int>(cc,sp,*rs[i],form,mine,pool,pr); break; case 2: post_one<MoveOnly>(cc,sp,*rs[i],form,mine,pool,pr); break;
          case 3: post_one<NoDef>(cc,sp,*rs[i],form,mine,pool,pr); break; default: post_one<std::vector<std::string>>(cc,sp,*rs[i],form,mine,pool,pr); } 
        if(cc.rng.p(30)){ mine.back()(); mine.pop_back(); } }
      posted.fetch_add(1); js[k]=std::move(mine); if(!drop) for(auto&f:js[k]) f(); }); }
    for(auto&t:th) t.join(); if(drop){ sp.reset(); for(auto&j:js) for(auto&f:j) f(); } js.clear(); }
  c.sig(h); mon::expect_no_live("leak:futures"); }
#define POOL(nm,q,maxw,expr,...) static mon::Reg reg_##nm(#nm,[](Case& c){ run_case(c,#nm,[]([[maybe_unused]] int w,[[maybe_unused]] Case& c){ return expr; },maxw,##__VA_ARGS__); },q,q*25);
#if PART==1
POOL(single,14,1,mk_single())
POOL(tp,24,5,mk_tp(w))
POOL(mq,16,5,(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)w)),6)
POOL(smq,16,5,(ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::guarded_deque<>,ba::default_find_position<ba::sequential_push_policy>,ba::default_save_cpu_load<>,true>>((size_t)w)),6)
POOL(io,12,3,(ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)w,(size_t)w+2)))
#elif PART==2
typedef ba::threadpool_scheduler<ba::lockfree_queue<>> TPS;
POOL(composite,16,3,(ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(mk_tp(w),mk_tp(1))),3)
POOL(tp_loggable,16,4,(ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<AL>>>((size_t)w)))
POOL(asio,16,4,(ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)w)))
// futures of servant members
struct Srv : ba::trackable_servant<> { Srv(ba::any_weak_scheduler<> w):ba::trackable_servant<>(w){}
  void v(Rec* r){ Plain<void>{r,mon::Token(r->id)}(); } int i(Rec* r){ return Plain<int>{r,mon::Token(r->id)}(); } MoveOnly m(Rec* r){ return Plain<MoveOnly>{r,mon::Token(r->id)}(); } NoDef n(Rec* r){ return Plain<NoDef>{r,mon::Token(r->id)}(); } };
struct Px : ba::servant_proxy<Px,Srv> { template<class S> Px(S s):ba::servant_proxy<Px,Srv>(s){}
  BOOST_ASYNC_FUTURE_MEMBER(v) BOOST_ASYNC_FUTURE_MEMBER(i) BOOST_ASYNC_FUTURE_MEMBER(m,1) BOOST_ASYNC_FUTURE_MEMBER(n) };
SCENARIO(proxy_members,24,600){ c.chaos(); int callers=c.rng.range(1,4), n=c.rng.range(4,40); c.say("proxy members callers=%d calls=%d chaos=%d",callers,n,mon::S().chaos.load());
  std::vector<std::unique_ptr<Rec>> rs; uint64_t h=n; for(int i=0;i<n;++i){ rs.emplace_back(new Rec); rs[i]->id=i+1; rs[i]->out=c.rng.p(45)?c.rng.range(1,4):0; h=mon::mix(h^rs[i]->out); }
  { Px px(mk_single()); std::vector<std::thread> th;
    for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,k,s,px]() mutable { mon::Rng g(s); std::vector<std::function<void()>> js;
      for(int i=k;i<n;i+=callers){ Rec& r=*rs[i]; switch(g(4)){
        case 0: { auto f=std::make_shared<std::future<void>>(px.v(&r)); js.push_back([f,&r]{ judge<void>(*f,r,"member","single"); }); break; }
        case 1: { auto f=std::make_shared<std::future<int>>(px.i(&r)); js.push_back([f,&r]{ judge<int>(*f,r,"member","single"); }); break; }
        case 2: { auto f=std::make_shared<std::future<MoveOnly>>(px.m(&r)); js.push_back([f,&r]{ judge<MoveOnly>(*f,r,"member","single"); }); break; }
        default: { auto f=std::make_shared<std::future<NoDef>>(px.n(&r)); js.push_back([f,&r]{ judge<NoDef>(*f,r,"member","single"); }); } } }
      for(auto&j:js) j(); }); }
    for(auto&t:th) t.join(); }
  c.sig(h); mon::expect_no_live("leak:futures"); }
#elif PART==3
// expected<T> against a model over random histories
template<class T> struct Io; 
template<> struct Io<int>{ static int mk(int i){ return i; } static int rd(int const& v){ return v; } enum{copy=1}; };
template<> struct Io<mon::Token>{ static mon::Token mk(int i){ return mon::Token(i); } static int rd(mon::Token const& v){ return v.value(); } enum{copy=1}; };
template<> struct Io<NoDef>{ static NoDef mk(int i){ return NoDef(i); } static int rd(NoDef const& v){ return v.t.value(); } enum{copy=1}; };
template<> struct Io<mon::MToken>{ static mon::MToken mk(int i){ return mon::MToken(i); } static int rd(mon::MToken const& v){ return v.value(); } enum{copy=0}; };
struct Mod { int kind=0; int v=0; };  // 0 unknown (default constructed or moved from), 1 value, 2 exception
template<class T> static void hist(Case& c,const char* name){ typedef ba::expected<T> E; constexpr bool V=std::is_same<T,void>::value; mon::Rng& r=c.rng; int n=r.range(5,60); c.say("expected<%s> history of %d",name,n);
  { std::vector<std::unique_ptr<E>> e; std::vector<Mod> m; uint64_t h=0; 
  auto K=[&](const char* k){ return std::string("expected:")+k+":"+name; };
  auto check=[&](size_t i){ E& x=*e[i]; Mod& k=m[i]; if(k.kind==0) return; mon::ev();
    if(x.has_exception()!=(k.kind==2)||x.has_value()!=(k.kind==1)) mon::fail_s(K("kind"),"has_exception / has_value wrong");
    if((k.kind==2)!=!!x.get_exception_ptr()) mon::fail_s(K("ptr"),"get_exception_ptr wrong");
    for(int cst=0;cst<2;++cst) try{ if constexpr(V){ if(cst) ((E const&)x).get(); else x.get(); if(k.kind==2) mon::fail_s(K("swallowed"),"get() returns though an exception is stored"); }
         else { int v=cst?Io<T>::rd(((E const&)x).get()):Io<T>::rd(x.get()); if(k.kind==2) mon::fail_s(K("swallowed"),"get() returns though an exception is stored"); else if(v!=k.v) mon::fail_s(K("value"),mon::fmt("value %d instead of %d",v,k.v)); } }
    catch(my_error& er){ if(k.kind!=2||er.id!=k.v) mon::fail_s(K("exception"),"wrong exception"); } };
  for(int s=0;s<n;++s){ int op=r(9),z=e.size()?r((int)e.size()):0,y=e.size()?r((int)e.size()):0; int v=r(1000); if(e.size()<2) op=r(2); h=mon::mix(h^op^(uint64_t)v<<8);
    switch(op){
     case 0: if constexpr(V) { e.emplace_back(new E); m.push_back({1,0}); } else { e.emplace_back(new E(Io<T>::mk(v))); m.push_back({1,v}); } break;
     case 1: e.emplace_back(new E(std::make_exception_ptr(my_error(v)))); m.push_back({2,v}); break;
     case 2: if constexpr(V) { if(m[z].kind==1){ e[z]->set_value(); } } else { if(m[z].kind==1){ e[z]->set_value(Io<T>::mk(v)); m[z]={1,v}; } } break;
     case 3: e[z]->set_exception(std::make_exception_ptr(my_error(v))); m[z]={2,v}; break;
     case 4: { e.emplace_back(new E(std::move(*e[z]))); m.push_back(m[z]); if(V&&m[z].kind==1){} else m[z].kind=0; break; }
     case 5: if(y!=z){ *e[y]=std::move(*e[z]); m[y]=m[z]; m[z].kind=0; } break;
     case 6: if constexpr(V) { e.emplace_back(new E(*e[z])); m.push_back(m[z]); } else if constexpr(Io<T>::copy){ if(m[z].kind){ e.emplace_back(new E(*e[z])); m.push_back(m[z]); } } break;
     case 7: if constexpr(V) { *e[y]=*e[z]; m[y]=m[z]; } else if constexpr(Io<T>::copy){ if(m[z].kind){ *e[y]=*e[z]; m[y]=m[z]; } } break;
     default: if(e.size()>3){ e.erase(e.begin()+z); m.erase(m.begin()+z); } }
    for(size_t i=0;i<e.size();++i) check(i); }
  c.sig(h); }
  mon::expect_no_live("leak:expected",0); }
SCENARIO(expected_int,60,3000){ hist<int>(c,"int"); }
SCENARIO(expected_void,60,3000){ hist<void>(c,"void"); }
SCENARIO(expected_token,60,3000){ hist<mon::Token>(c,"object"); }
SCENARIO(expected_nodefault,60,3000){ hist<NoDef>(c,"no-default"); }
SCENARIO(expected_moveonly,60,3000){ hist<mon::MToken>(c,"move-only"); }
#endif
