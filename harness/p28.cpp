// P28: everything handed over through the library is synchronised. All data here are plain (no atomics, no locks of the harness between
// writer and reader), so that only the library's own synchronisation orders the accesses: ThreadSanitizer is the oracle, values are compared as well.
#include "anypool.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
using mon::Case; using mon::Rng;
#if PART==1
typedef AC J;
#else
typedef AL J;
#endif
typedef ba::any_shared_scheduler_proxy<J> P;
namespace {
struct Cell { int n=0; int a[3]={0,0,0}; std::string s; void add(int k){ ++n; a[n%3]+=k; s+=char('a'+(k&15)); } bool ok(int cnt){ return n==cnt&&(int)s.size()==cnt; } };
void bad(const char* w,Cell& c,int cnt){ mon::fail_s(std::string("visible:")+w,mon::fmt("a write made before is not seen: %d of %d steps",c.n,cnt)); }
void keep(Cell* x){ static std::mutex m; static auto& v=*new std::vector<Cell*>; std::lock_guard<std::mutex> l(m); v.push_back(x); }
template<class F> bool get(F& f,const char* w){ if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready){ mon::fail_s(std::string("deadlock:")+w,"operation never completed"); return false; } return true; }
std::string nm(Rng& r){ return std::string("t")+char('a'+r(5)); }

P mk(int k,int w){ if(k==pool_kinds<J>()) return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<J>>>((size_t)w,(size_t)w+2); return any_pool<J>(k,w); }
int kinds(){ return pool_kinds<J>()+1; }
const char* kname(int k){ return k==pool_kinds<J>()?"io":pool_name[k]; }

// ---- futures: cells travel from thread to thread
void pass_future(Case& c){ c.chaos(); int k=c.rng(kinds()),k2=c.rng(kinds()), w=c.rng.range(1,4), th=c.rng.range(1,4), n=c.rng.range(2,30); bool ctl=c.rng.p(50); c.say("future %s,%s workers=%d posters=%d cells=%d controls=%d chaos=%d",kname(k),kname(k2),w,th,n,ctl,mon::S().chaos.load()); c.sig(c.rng.next());
  P p=mk(k,w), q=mk(k2,w); std::vector<std::thread> t; bool stop=false; std::atomic<bool> st{false};
  for(int i=0;i<th;++i){ uint64_t s=c.rng.next(); t.emplace_back([&,s,mp=p,mq=q]() mutable { Rng r(s); std::vector<std::pair<std::future<Cell*>,std::pair<Cell*,int>>> v;
      for(int x=0;x<n;++x){ Cell* ce=new Cell; ce->add(x); int want=2;
        switch(r(5)){ case 0: v.emplace_back(ba::post_future(mp,[ce]{ ce->add(1); mon::ev(); return ce; },nm(r),0),std::make_pair(ce,2)); break;
          case 1: v.emplace_back(std::move(std::get<0>(ba::interruptible_post_future(mq,[ce]{ ce->add(2); mon::ev(); return ce; },nm(r),0))),std::make_pair(ce,2)); break;
          case 2: { auto pr=std::make_shared<std::promise<Cell*>>(); auto f=pr->get_future(); mp.post(mkjob<J>([ce,pr]{ ce->add(3); mon::ev(); pr->set_value(ce); },"raw"),0); v.emplace_back(std::move(f),std::make_pair(ce,2)); break; }
          case 3: { // two hops
            auto pr=std::make_shared<std::promise<Cell*>>(); auto f=pr->get_future(); auto wq=mq.get_weak_scheduler(); std::string name=nm(r);
            mp.post(mkjob<J>([ce,pr,wq,name]{ ce->add(4); auto l=wq.lock(); if(l.is_valid()) l.post(mkjob<J>([ce,pr]{ ce->add(5); mon::ev(); pr->set_value(ce); },"hop"),0); else pr->set_value(ce); },"hop0"),0); v.emplace_back(std::move(f),std::make_pair(ce,3)); break; }
          default: { std::vector<J> js; auto pr=std::make_shared<std::promise<Cell*>>(); auto f=pr->get_future(); js.push_back(mkjob<J>([ce,pr]{ ce->add(6); mon::ev(); pr->set_value(ce); },"vec")); for(auto& j:js) mp.post(std::move(j),0); v.emplace_back(std::move(f),std::make_pair(ce,2)); } }
        if(r.p(20)&&v.back().first.valid()){ auto& b=v.back(); if(get(b.first,"future")){ Cell* g=b.first.get(); if(g!=b.second.first||!g->ok(b.second.second)) bad("future",*b.second.first,b.second.second); } } }
      for(auto& b:v){ if(b.first.valid()){ if(!get(b.first,"future")) continue; Cell* g=b.first.get(); if(g!=b.second.first||!g->ok(b.second.second)) bad("future",*b.second.first,b.second.second); } delete b.second.first; } }); }
  std::thread ct; if(ctl){ uint64_t s=c.rng.next(); ct=std::thread([&,s,mp=p]() mutable { Rng r(s); size_t sum=0; while(!st.load(std::memory_order_relaxed)){ switch(r(10)){ case 0: for(auto x:mp.get_queue_size()) sum+=x; break; case 1: for(auto x:mp.get_max_queue_size()) sum+=x; break; case 2: mp.reset_max_queue_size(); break; case 3: sum+=mp.thread_ids().size(); break;
        case 4: { auto d=mp.get_diagnostics(); sum+=d.totals().size()+d.current().size(); break; } case 5: mp.clear_diagnostics(); break; case 6: { P cp=mp; sum+=cp.is_valid(); break; } case 7: { auto l=mp.get_weak_scheduler().lock(); sum+=l.is_valid(); break; } case 8: if(k!=PK_ASIO&&k!=PK_COMPOSITE) mp.set_name("abc"); break; default: sum+=mp.get_name().size(); } mon::nap_us(r(150)); } mon::ev((long)(sum&1)); }); }
  for(auto& x:t) x.join(); st=true; if(ct.joinable()) ct.join(); (void)stop; }

// ---- servants: plain state, cells through members, tasks, callbacks, safe callbacks, post_self
struct Sv : ba::trackable_servant<J,J> { P other; int calls=0; long sum=0; std::vector<int> log; Cell* last; int open=0; std::promise<long>* fin=nullptr; std::promise<void>* ready;
  Sv(ba::any_weak_scheduler<J> w,P a,P b,Cell* l):ba::trackable_servant<J,J>(w,a),other(b),last(l){ last->add(1); }
  ~Sv(){ last->add((int)sum&7); }
  void done(Cell* ce,int want,std::promise<Cell*>* pr){ mon::ev(); ++calls; sum+=ce->n; log.push_back(ce->n); if(!ce->ok(want)) bad("callback",*ce,want); ce->add(9); --open; pr->set_value(ce); }
  void task(Cell* ce,int form,std::promise<Cell*>* pr){ ++calls; ++open; ce->add(2); int s=(int)sum; auto work=[ce,s]{ ce->add(s&15); mon::ev(); }; 
    const size_t Z=0;
    switch(form){ case 0: post_callback(work,[this,ce,pr](ba::expected<void>){ done(ce,3,pr); },"c0",Z,Z); break; case 1: interruptible_post_callback(work,[this,ce,pr](ba::expected<void>){ done(ce,3,pr); },"c1",Z,Z); break;
      case 2: post_callback(other,work,[this,ce,pr](ba::expected<void>){ done(ce,3,pr); },"c2",Z,Z); break; case 3: call_callback(other,work,[this,ce,pr](ba::expected<void>){ done(ce,3,pr); },"c3",Z,Z); break;
      case 4: post_self([this,ce,pr]{ done(ce,2,pr); },"c4",Z); break; case 5: { auto sc=make_safe_callback([this,ce,pr](int k){ ce->add(k); done(ce,4,pr); },"c5",Z); post_future([ce,sc]{ ce->add(1); sc(3); },"c5"); break; }
      case 6: { auto sc=make_safe_post_callback([this,ce,pr]{ done(ce,2,pr); },"c6",Z); sc(); break; }
      default: { auto sc=make_safe_callback([this,ce,pr]{ done(ce,3,pr); },"c7",Z); std::thread([ce,sc]() mutable { ce->add(4); auto s2=sc; sc=nullptr; s2(); }).detach(); } } }
  long total(){ ++calls; long t=sum; for(auto x:log) t-=x; return t; }
  Cell* echo(Cell* ce){ ++calls; ce->add(7); return ce; } 
  std::function<void(Cell*)> safe(){ return make_safe_callback([this](Cell* ce){ ++calls; ce->add(1); sum+=1; log.push_back(1); mon::ev(); },"s",(size_t)0); } };
struct Px : ba::servant_proxy<Px,Sv,J> { typedef ba::servant_proxy<Px,Sv,J>::callable_type callable_type; template<class S> Px(S s,P a,P b,Cell* l):ba::servant_proxy<Px,Sv,J>(s,a,b,l){}
  BOOST_ASYNC_FUTURE_MEMBER_LOG(total,"total") BOOST_ASYNC_FUTURE_MEMBER_LOG(echo,"echo") BOOST_ASYNC_POST_MEMBER_LOG(task,"task") BOOST_ASYNC_FUTURE_MEMBER_LOG(safe,"safe") BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",0) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",0) };
void pass_servant(Case& c){ c.chaos(); int k=c.rng(kinds()), w=c.rng.range(1,4), th=c.rng.range(1,4), n=c.rng.range(2,25), sk=c.rng(4), ns=c.rng.range(1,2); c.say("servant pool=%s workers=%d callers=%d calls=%d servants=%d scheduler=%d chaos=%d",kname(k),w,th,n,ns,sk,mon::S().chaos.load()); c.sig(c.rng.next());
  std::vector<Cell*> last; { P a=mk(k,w), b=mk(c.rng(kinds()),w); P s; switch(sk){ case 0: s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<J>>>(); break; case 1: s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<J>>>(); break; case 2: s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::threadsafe_list<J>>>(); break; default: s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<J>>>(ba::any_queue_container_config<ba::lockfree_queue<J>>(1)); }
    std::vector<Px> px; for(int i=0;i<ns;++i){ last.push_back(new Cell); px.emplace_back(s,a,b,last.back()); } std::vector<std::thread> t; bool early=c.rng.p(40);
    for(int i=0;i<th;++i){ uint64_t sd=c.rng.next(); t.emplace_back([&,sd,mine=px]() mutable { Rng r(sd); std::vector<std::pair<Cell*,std::promise<Cell*>*>> pend; std::vector<std::pair<Cell*,std::future<Cell*>>> ec;
      for(int x=0;x<n;++x){ Px& p=mine[r((int)mine.size())]; Cell* ce=new Cell; ce->add(x); if(r.p(70)){ auto* pr=new std::promise<Cell*>; pend.emplace_back(ce,pr); p.task(ce,r(8),pr); } else ec.emplace_back(ce,p.echo(ce)); 
        if(r.p(10)){ auto f=p.safe(); if(get(f,"servant")){ auto sc=f.get(); Cell* c2=new Cell; keep(c2); c2->add(1); std::thread([sc,c2]{ c2->add(2); sc(c2); }).join(); auto g=p.total(); if(get(g,"servant")){ long tt=g.get(); if(tt!=0) mon::fail_s("visible:servant",mon::fmt("state of the servant is inconsistent: %ld",tt)); } } } }
      for(auto& e:ec){ if(!get(e.second,"servant")) continue; Cell* g=e.second.get(); if(g!=e.first||!g->ok(2)) bad("member",*e.first,2); delete g; }
      for(auto& e:pend){ auto f=e.second->get_future(); if(!get(f,"servant")) continue; Cell* g=f.get(); g->add(1); mon::nap_us(r(30)); delete g; } static std::mutex km; static auto& kp=*new std::vector<std::promise<Cell*>*>; std::lock_guard<std::mutex> l(km); for(auto& e:pend) kp.push_back(e.second); }); }
    if(early) px.clear(); for(auto& x:t) x.join(); }
  // the proxies are gone. The servant's own destruction may still be on its way: its effect is joined by the scheduler's threads
  static auto& kept=*new std::vector<Cell*>; kept.insert(kept.end(),last.begin(),last.end()); }

// ---- servants of a multiple-thread scheduler: many threads, plain state
struct MS { int calls=0; std::vector<int> v; Cell* ce; MS(Cell* x):ce(x){} Cell* step(Cell* x,int i){ ++calls; v.push_back(i); ce->add(i); x->add(i); mon::ev(); return x; } int size(){ return (int)v.size()-calls+ce->n-calls; } };
struct MP : ba::servant_proxy<MP,MS,J> { typedef ba::servant_proxy<MP,MS,J>::callable_type callable_type; template<class S> MP(S s,Cell* x):ba::servant_proxy<MP,MS,J>(s,x){} BOOST_ASYNC_FUTURE_MEMBER_LOG(step,"step") BOOST_ASYNC_FUTURE_MEMBER_LOG(size,"size") BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",0) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",0) };
void pass_multi(Case& c){ c.chaos(); int w=c.rng.range(1,4), ns=c.rng.range(1,4), th=c.rng.range(1,4), n=c.rng.range(2,40), q=c.rng(3); c.say("multi workers=%d servants=%d callers=%d calls=%d queue=%d chaos=%d",w,ns,th,n,q,mon::S().chaos.load()); c.sig(c.rng.next()); std::vector<std::unique_ptr<Cell>> ce; for(int i=0;i<ns;++i) ce.push_back(std::make_unique<Cell>());
  P s; switch(q){ case 0: s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<J>>>((size_t)w,(size_t)ns); break; case 1: s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::guarded_deque<J>>>((size_t)w,(size_t)ns); break; default: s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<J>>>((size_t)w,(size_t)ns,ba::any_queue_container_config<ba::lockfree_queue<J>>(1)); }
  std::vector<MP> px; for(int i=0;i<ns;++i) px.emplace_back(std::make_tuple(s,(size_t)i),ce[i].get()); std::vector<std::thread> t;
  for(int i=0;i<th;++i){ uint64_t sd=c.rng.next(); t.emplace_back([&,sd,mine=px]() mutable { Rng r(sd); std::vector<std::pair<Cell*,std::future<Cell*>>> v; for(int x=0;x<n;++x){ Cell* y=new Cell; y->add(x); v.emplace_back(y,mine[r(ns)].step(y,x)); } for(auto& b:v){ if(!get(b.second,"multi")) continue; Cell* g=b.second.get(); if(g!=b.first||!g->ok(2)) bad("multi",*g,2); delete g; } auto f=mine[r(ns)].size(); if(get(f,"multi")&&f.get()!=0) mon::fail_s("visible:multi","state of the servant is inconsistent"); }); }
  for(auto& x:t) x.join(); { std::vector<std::future<int>> f; for(auto& p:px) f.push_back(p.size()); for(int i=0;i<ns;++i) if(get(f[i],"multi")&&f[i].get()!=0) mon::fail_s("visible:multi","state of the servant is inconsistent"); } int tot=0; for(auto& x:ce) tot+=x->n; if(tot!=th*n) mon::fail_s("visible:multi",mon::fmt("%d of %d steps seen at the end",tot,th*n)); }

// ---- continuations: subtasks build cells, their continuation reads and frees them
struct TN : ba::continuation_task<Cell*> { int d; uint64_t s; int kind; TN(int dd,uint64_t x,int k):ba::continuation_task<Cell*>("tn"),d(dd),s(x),kind(k){}
  void operator()(){ auto res=this->this_task_result(); Rng r(s); if(d==0){ Cell* ce=new Cell; ce->add(1); mon::ev(); res.set_value(ce); return; }
    Cell* mine=new Cell; mine->add(2); uint64_t a=r.next(),b=r.next();
    auto join=[mine](std::vector<Cell*> v){ for(auto x:v){ int k=x->n; if((int)x->s.size()!=k) bad("continuation",*x,k); for(int i=0;i<k;++i) mine->add(i); delete x; } return mine; };
    switch((kind+d)%3){ case 0: ba::create_callback_continuation_job<J>([res,join](std::tuple<ba::expected<Cell*>,ba::expected<Cell*>> t) mutable { try{ res.set_value(join({std::get<0>(t).get(),std::get<1>(t).get()})); }catch(...){ res.set_exception(std::current_exception()); } },TN(d-1,a,kind),TN(d-1,b,kind)); break;
      case 1: { std::vector<TN> v; int n=r.range(1,4); for(int i=0;i<n;++i) v.emplace_back(d-1,r.next(),kind); ba::create_callback_continuation_job<J>([res,join](std::vector<ba::expected<Cell*>> t) mutable { try{ std::vector<Cell*> x; for(auto& e:t) x.push_back(e.get()); res.set_value(join(x)); }catch(...){ res.set_exception(std::current_exception()); } },std::move(v)); break; }
      default: ba::create_callback_continuation_job<J>([res,join](std::tuple<ba::expected<Cell*>,ba::expected<Cell*>> t) mutable { try{ res.set_value(join({std::get<0>(t).get(),std::get<1>(t).get()})); }catch(...){ res.set_exception(std::current_exception()); } },ba::top_level_callback_continuation_job<Cell*,J>(TN(d-1,a,kind)),TN(d-1,b,kind)); } } };
void pass_continuation(Case& c){ c.chaos(); int k=c.rng(kinds()), w=c.rng.range(1,4), d=c.rng.range(0,4), kind=c.rng(3), th=c.rng.range(1,3); c.say("continuation %s workers=%d depth=%d kind=%d callers=%d chaos=%d",kname(k),w,d,kind,th,mon::S().chaos.load()); c.sig(c.rng.next()); P p=mk(k,w); std::vector<std::thread> t;
  for(int i=0;i<th;++i){ uint64_t s=c.rng.next(); t.emplace_back([&,s,mp=p]() mutable { auto f=ba::post_future(mp,[=]{ return ba::top_level_callback_continuation_job<Cell*,J>(TN(d,s,kind)); },"top",0); if(!get(f,"continuation")) return; Cell* g=f.get(); if((int)g->s.size()!=g->n||g->n<1) bad("continuation",*g,g->n); delete g; }); }
  for(auto& x:t) x.join(); }

// ---- algorithms: plain elements
struct Inc { void operator()(int const& x)const{ ++const_cast<int&>(x); mon::ev(); } }; struct Add { int operator()(int a,int b)const{ return a+b; } }; struct Twice { int operator()(int x)const{ mon::ev(); return x*2; } };
void pass_algorithm(Case& c){ c.chaos(); int k=c.rng(kinds()-1), w=c.rng.range(1,4), n=c.rng.range(0,400), form=c.rng(6); long cut=c.rng.range(1,60); c.say("algorithm %d %s workers=%d n=%d cutoff=%ld chaos=%d",form,kname(k),w,n,cut,mon::S().chaos.load()); c.sig(c.rng.next()); P p=mk(k,w); auto v=std::make_unique<std::vector<int>>(n); for(int i=0;i<n;++i) (*v)[i]=(i*7919)%1000; std::vector<int> o(n); auto* vp=v.get(); auto* op=&o; bool ok=true; auto ws=std::make_unique<long>(0); auto* wp=ws.get(); std::vector<int> ref=*v;
  switch(form){ case 0: { auto f=ba::post_future(p,[=]{ return ba::parallel_for<decltype(vp->begin()),Inc,J>(vp->begin(),vp->end(),Inc(),cut,"a",0); },"a",0); if(get(f,"algorithm")) f.get(); for(int i=0;i<n;++i) ok&=(*v)[i]==ref[i]+1; break; }
    case 1: { auto f=ba::post_future(p,[=]{ return ba::parallel_reduce<decltype(vp->begin()),Add,J>(vp->begin(),vp->end(),Add(),cut,"a",0); },"a",0); long s=0; for(auto x:ref) s+=x; if(n&&get(f,"algorithm")) ok=f.get()==s; else if(get(f,"algorithm")) f.get(); break; }
    case 2: { auto f=ba::post_future(p,[=]{ return ba::parallel_sort<decltype(vp->begin()),std::less<int>,J>(vp->begin(),vp->end(),std::less<int>(),cut,"a",0); },"a",0); if(get(f,"algorithm")) f.get(); std::sort(ref.begin(),ref.end()); ok=*v==ref; break; }
    case 3: { auto f=ba::post_future(p,[=]{ return ba::parallel_transform<decltype(vp->begin()),decltype(op->begin()),Twice,J>(vp->begin(),vp->end(),op->begin(),Twice(),cut,"a",0); },"a",0); if(get(f,"algorithm")) f.get(); for(int i=0;i<n;++i) ok&=o[i]==ref[i]*2; break; }
    case 4: { auto mv=std::make_shared<std::vector<int>>(ref); auto f=ba::post_future(p,[mv,cut]{ return ba::parallel_for<std::vector<int>,Inc,J>(std::move(*mv),Inc(),cut,"a",0); },"a",0); if(get(f,"algorithm")){ auto r=f.get(); ok=(int)r.size()==n; for(int i=0;i<n&&ok;++i) ok&=r[i]==ref[i]+1; } break; }
    default: { auto f=ba::post_future(p,[=]{ return ba::parallel_invoke<J>(ba::to_continuation_task([=]{ for(int i=0;i<n/2;++i) (*op)[i]=i; mon::ev(); return 1; }),ba::to_continuation_task([=]{ for(int i=n/2;i<n;++i) (*op)[i]=i; return 2; }),ba::to_continuation_task([=]{ long s=0; for(auto x:*vp) s+=x; *wp=s; })); },"a",0); if(get(f,"algorithm")){ auto t=f.get(); ok=std::get<0>(t).get()==1&&std::get<1>(t).get()==2; } for(int i=0;i<n;++i) ok&=o[i]==i; } }
  if(!ok) mon::fail_s("visible:algorithm",mon::fmt("form %d: elements are not as the algorithm left them",form)); }

// ---- shutdown: whatever the jobs wrote is seen after the pool has been destroyed
void pass_shutdown(Case& c){ c.chaos(); int k=c.rng(PK_COMPOSITE), w=c.rng.range(1,4), n=c.rng.range(1,60), th=c.rng.range(1,3); c.say("shutdown %s workers=%d jobs=%d posters=%d chaos=%d",kname(k),w,n,th,mon::S().chaos.load()); c.sig(c.rng.next()); std::vector<std::unique_ptr<Cell>> v; for(int i=0;i<n*th;++i) v.push_back(std::make_unique<Cell>());
  { P p=mk(k,w); std::vector<std::thread> t; for(int i=0;i<th;++i) t.emplace_back([&,i,mp=p]() mutable { for(int x=0;x<n;++x){ Cell* ce=v[i*n+x].get(); ce->add(x); mp.post(mkjob<J>([ce]{ mon::jitter(); ce->add(1); mon::ev(); },"x"),0); } }); for(auto& x:t) x.join(); }
  for(auto& x:v) if(!x->ok(2)) bad("shutdown",*x,2); }

// ---- interruption against running, starting and ending tasks
void pass_interrupt(Case& c){ c.chaos(); int k=c.rng(kinds()), w=c.rng.range(1,3), n=c.rng.range(1,20); c.say("interrupt %s workers=%d tasks=%d chaos=%d",kname(k),w,n,mon::S().chaos.load()); c.sig(c.rng.next()); P p=mk(k,w); std::vector<std::unique_ptr<Cell>> ce; std::vector<std::future<Cell*>> f; std::vector<ba::any_interruptible> in; f.reserve(n); in.reserve(n);
  for(int i=0;i<n;++i){ ce.push_back(std::make_unique<Cell>()); Cell* x=ce.back().get(); bool slow=c.rng.p(50); auto t=ba::interruptible_post_future(p,[x,slow]{ x->add(1); if(slow) for(int k=0;k<20;++k){ boost::this_thread::interruption_point(); mon::nap_us(15); } x->add(2); mon::ev(); return x; },"i",0); f.push_back(std::move(std::get<0>(t))); in.push_back(std::get<1>(t)); }
  std::vector<std::thread> t; for(int i=0;i<2;++i){ uint64_t s=c.rng.next(); t.emplace_back([&,s,mine=in]() mutable { Rng r(s); for(int x=0;x<n;++x){ if(r.p(60)) mine[r(n)].interrupt(); mon::nap_us(r(40)); } }); }
  for(int i=0;i<n;++i){ if(!get(f[i],"interrupt")) continue; try{ Cell* x=f[i].get(); if(!x->ok(2)) bad("interrupt",*x,2); x->add(1); }catch(...){ } } for(auto& x:t) x.join(); }
}
#if PART==1
#define T(n) n
#else
#define T(n) n##_log
#endif
#define SC(n,q) static mon::Reg PASTE(r_,n)(STR(n),[](Case& c){ n(c); },q,q*20);
#define PASTE2(a,b) a##b
#define PASTE(a,b) PASTE2(a,b)
#if PART==1
#define STR(n) #n
#else
#define STR(n) #n "_log"
#endif
SC(pass_future,60) SC(pass_servant,60) SC(pass_multi,40) SC(pass_continuation,60) SC(pass_algorithm,60) SC(pass_shutdown,60) SC(pass_interrupt,40)
