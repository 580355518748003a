// P10: priorities select the queue, higher ones first, nothing lost; disabled queues rest and resume in order.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
using mon::Case;
template<class J> using AQC=ba::any_queue_container<J>; template<class J> using SQ=ba::any_queue_container<J,ba::default_find_position<ba::sequential_push_policy>>;
typedef ba::any_interruptible Handle;
struct Job1 { int prio=0,q=-1; std::atomic<int> runs{0}; uint64_t posted=~0ull, started=0, scan=0; long tid=0; };   // q: queue index, -1 any. posted: time the post returned, scan: the worker was free from then on
struct Rec { std::vector<std::unique_ptr<Job1>> j; std::atomic<uint64_t> clk{1}; std::atomic<int> n{0}; std::string P; explicit Rec(std::string p,int cap):P(p){ j.reserve(cap); for(int i=0;i<cap;++i) j.push_back(std::make_unique<Job1>()); }
  uint64_t now(){ return clk.fetch_add(1); } };
static thread_local uint64_t tl_end=0;                                         // when this worker finished its previous job
template<class F> void body(Rec& r,int id,F f){ Job1& x=*r.j[id]; x.scan=tl_end; x.started=r.now(); x.tid=mon::tid(); mon::ev(); if(x.runs.fetch_add(1)) mon::fail_s("twice:"+r.P,"job executed twice"); f(); tl_end=r.now(); }
static int qof(int prio,int k){ return prio==0?-1:std::min(prio,k)-1; }
// strict: no job may start while one of a better queue had been waiting since before the worker looked (slack: taken by another worker, not recorded yet)
static void judge_order(Rec& r,int n,int slack,bool fifo,uint64_t& sig){ std::vector<Job1*> v; for(int i=0;i<n;++i){ Job1* x=r.j[i].get(); if(x->runs!=1) mon::fail_s("lost:"+r.P,mon::fmt("job %d with priority %d executed %d times",i,x->prio,x->runs.load())); v.push_back(x); }
  std::sort(v.begin(),v.end(),[](Job1*a,Job1*b){ return a->started<b->started; }); for(auto x:v) sig=mon::mix(sig*31+x->prio);
  for(size_t i=0;i<v.size();++i){ Job1* y=v[i]; if(y->q<0) continue; int bad=0; for(size_t k=i+1;k<v.size();++k){ Job1* x=v[k]; if(x->q>=0&&x->q<y->q&&x->posted<y->scan) ++bad; }
    if(bad>slack) mon::fail_s("priority:"+r.P,mon::fmt("a job of queue %d started while %d jobs of better queues were waiting",y->q+1,bad)); }
  if(fifo) for(size_t i=0;i<v.size();++i) for(size_t k=i+1;k<v.size();++k) if(v[i]->q==v[k]->q&&v[i]->q>=0&&v[k]->posted<v[i]->posted) { mon::fail_s("fifo:"+r.P,"jobs of one queue executed out of order"); return; } }
template<class J> void post_form(Case& c,ba::any_shared_scheduler_proxy<J>& p,std::function<void()> f,size_t prio,std::vector<std::future<void>>& fu,std::vector<Handle>& h,int forms=5){ switch(c.rng(forms)){ case 0: p.post(mkjob<J>(f),prio); break; case 1: fu.push_back(ba::post_future(p,f,"f",prio)); break;
   case 2: { auto l=p.get_weak_scheduler().lock(); l.post(mkjob<J>(f),prio); break; } case 3: { h.push_back(p.interruptible_post(mkjob<J>(f),prio)); break; } case 4: { auto x=ba::interruptible_post_future(p,f,"i",prio); fu.push_back(std::move(std::get<0>(x))); h.push_back(std::get<1>(x)); break; } } }
template<class J> struct Mk; 
static const char* kinds[]={"lockfree","list","deque","mixed"};
template<class J,class Q,class POL=ba::default_find_position<>> static ba::any_shared_scheduler_proxy<J> mk_cont(bool pool,int w,int kind,int& k,mon::Rng& g){
  typedef ba::any_queue_container<J,POL> C; typedef ba::any_queue_container_config<ba::lockfree_queue<J>> L; typedef ba::any_queue_container_config<ba::threadsafe_list<J>> T; typedef ba::any_queue_container_config<ba::guarded_deque<J>> D;
  auto mk=[&](auto... cfg){ if(pool) return ba::any_shared_scheduler_proxy<J>(ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<C>>((size_t)w,cfg...)); return ba::any_shared_scheduler_proxy<J>(ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<C>>(cfg...)); };
  switch(kind){ case 0: k=g.range(1,4); return mk(L(k)); case 1: k=g.range(1,4); return mk(T(k)); case 2: k=g.range(2,4); return mk(D(k)); default: { int a=g.range(1,2),b=g.range(1,2),d=g.range(1,2); k=a+b+d; return mk(T(a),L(b),D(d)); } } }

// everything posted while the workers are held, some jobs post more, some threads post concurrently
template<class J,class Q,class POL> void prio_case(Case& c,const char* name,bool pool){ c.chaos(); int w=pool?c.rng.range(1,4):1, kind=c.rng(4), k=0; auto p=mk_cont<J,Q,POL>(pool,w,kind,k,c.rng); int n=c.rng.range(2,60), extra=c.rng.range(0,20), conc=c.rng.range(0,2), per=c.rng.range(1,20); bool hold=c.rng.p(70); int anypct=c.rng.p(40)?30:0;
  c.say("%s %s queues=%d workers=%d held=%d jobs=%d nested=%d posters=%d chaos=%d",name,kinds[kind],k,w,hold,n,extra,conc,mon::S().chaos.load()); Rec r(std::string(name)+":"+kinds[kind],n+extra+conc*per); uint64_t sig=1;
  { auto px=std::move(p); std::vector<std::future<void>> fu; std::vector<Handle> hd; std::atomic<bool> go{!hold}; std::atomic<int> held{0}; std::vector<std::future<void>> bl;
    if(hold){ for(int i=0;i<w;++i) bl.push_back(ba::post_future(px,[&]{ held++; while(!go) mon::nap_us(30); tl_end=r.now(); },"hold",1)); if(!mon::wait_for([&]{ return held==w; },25)) mon::fail_s("stuck:"+r.P,"free workers do not take jobs"); }
    auto wk=px.get_weak_scheduler(); std::vector<int> left(1,extra); std::atomic<int> next{n}; auto pr=[&](mon::Rng& g){ return g.p(anypct)?0:g.range(1,k+(g.p(20)?3:0)); };
    std::vector<size_t> cnt(k,0); size_t any=0;
    for(int i=0;i<n;++i){ r.j[i]->prio=pr(c.rng); r.j[i]->q=qof(r.j[i]->prio,k); if(r.j[i]->q>=0) cnt[r.j[i]->q]++; else ++any; bool more=extra&&c.rng.p(40); uint64_t s=c.rng.next(); int id=i;
      post_form<J>(c,px,[&r,&next,&pr,wk,id,more,s,n,extra,k]{ body(r,id,[&]{ mon::Rng g(s); mon::jitter(); if(more){ auto l=wk.lock(); if(!l.is_valid()) return; int q=next.load(); while(q<n+extra&&!next.compare_exchange_weak(q,q+1)); if(q<n+extra){ r.j[q]->prio=pr(g); r.j[q]->q=qof(r.j[q]->prio,k); int pp=r.j[q]->prio; l.post(mkjob<J>([&r,q]{ body(r,q,[]{ mon::jitter(); }); }),pp); r.j[q]->posted=r.now(); } } }); },r.j[i]->prio,fu,hd); r.j[i]->posted=r.now(); }
    if(hold&&kind==2){ auto sz=px.get_queue_size(); size_t sum=0; for(auto x:sz) sum+=x; if(sum!=(size_t)n) mon::fail_s("size:"+r.P,mon::fmt("%zu jobs reported, %d waiting",sum,n)); if(!any&&sz.size()==(size_t)k) for(int i=0;i<k;++i) if(sz[i]!=cnt[i]) mon::fail_s("size:"+r.P,mon::fmt("queue %d reports %zu of its %zu jobs",i+1,sz[i],cnt[i])); }
    std::vector<std::thread> th; for(int t=0;t<conc;++t){ uint64_t s=c.rng.next(); th.emplace_back([&,t,s]{ mon::Rng g(s); for(int i=0;i<per;++i){ int id=n+extra+t*per+i; r.j[id]->prio=pr(g); r.j[id]->q=qof(r.j[id]->prio,k); px.post(mkjob<J>([&r,id]{ body(r,id,[]{ mon::jitter(); }); }),r.j[id]->prio); r.j[id]->posted=r.now(); if(g.p(20)) mon::nap_us(g(60)); } }); }
    if(c.rng.p(50)) for(auto&t:th) t.join(), t=std::thread();
    go=true; for(auto&t:th) if(t.joinable()) t.join();
    for(auto&f:fu) if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("lost:"+r.P,"job never executed"); if(c.rng.p(50)) for(auto&b:bl) b.wait(); for(auto&b:bl) b.wait();
    // nested jobs may be fewer than planned: compact
    px=ba::any_shared_scheduler_proxy<J>();
    std::vector<std::unique_ptr<Job1>> v; for(size_t i=0;i<r.j.size();++i) if((int)i<n||(int)i>=n+extra||(int)i<std::min(next.load(),n+extra)) v.push_back(std::move(r.j[i])); r.j=std::move(v); }
  mon::wait_for([&]{ for(auto&x:r.j) if(!x->runs) return false; return true; },25);   // a job of the scheduler may have held its last reference
  judge_order(r,(int)r.j.size(),w-1,kind!=2&&w==1&&conc==0&&!extra,sig); c.sig(sig); }

// disabled queues
template<class J> void disable_case(Case& c,const char* name,bool pool){ c.chaos(); int w=pool?c.rng.range(1,4):1, kind=c.rng(4), k=0; auto px=mk_cont<J,void>(pool,w,kind,k,c.rng); int rounds=c.rng.range(1,4); c.say("%s %s queues=%d workers=%d rounds=%d chaos=%d",name,kinds[kind],k,w,rounds,mon::S().chaos.load()); std::string P=std::string(name)+":"+kinds[kind]; uint64_t sig=1; auto wk=px.get_weak_scheduler();
  for(int rd=0;rd<rounds;++rd){ int q=c.rng(k); int n=c.rng.range(1,40); bool inside=c.rng.p(50), two=k>1&&c.rng.p(30); int q2=(q+1)%k; 
    struct Q { std::atomic<int> runs{0}; std::atomic<bool> off{false}; std::atomic<int> inflight{0}; std::vector<int> order; std::mutex m; }; std::vector<std::unique_ptr<Q>> qs; for(int i=0;i<k;++i) qs.push_back(std::make_unique<Q>()); std::atomic<int> early{0};
    auto en=[&](int i,bool e){ auto l=wk.lock(); l.enable_queue(i+1,e); };
    int pre=c.rng(10); std::atomic<int> preran{0}; for(int i=0;i<pre;++i) px.post(mkjob<J>([&]{ preran++; mon::jitter(); }),q+1);
    if(inside&&!pool){ int oq=(k>1)?(q+1)%k:q; if(oq==q||two){ en(q,false); if(two) en(q2,false); } else { auto f=ba::post_future(px,[&]{ en(q,false); },"dis",oq+1); f.wait(); } } else { en(q,false); if(two) en(q2,false); }
    // whatever was taken before may still run: let every worker pass once through a job of an enabled queue, else wait
    std::vector<int> on; for(int i=0;i<k;++i) if(i!=q&&!(two&&i==q2)) on.push_back(i);
    if(!on.empty()){ std::atomic<int> in{0}; std::vector<std::future<void>> f; for(int i=0;i<w;++i) f.push_back(ba::post_future(px,[&in,w]{ in++; mon::wait_for([&]{ return in>=w; },25); },"pass",on[0]+1)); for(auto&x:f) if(x.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("stuck:"+P,"jobs of an enabled queue not executed while another one is disabled"); }
    else mon::nap_us(30000);
    qs[q]->off=true; if(two) qs[q2]->off=true; int base=preran; std::vector<int> cnt(k,0); std::vector<std::future<void>> fon,foff;
    for(int i=0;i<n;++i){ int t=c.rng(k); int id=cnt[t]++; auto f=ba::post_future(px,[&,t,id]{ Q& x=*qs[t]; mon::ev(); if(x.off) early++; { std::lock_guard<std::mutex> l(x.m); x.order.push_back(id); } x.runs++; mon::jitter(); },"j",t+1); (t==q||(two&&t==q2)?foff:fon).push_back(std::move(f)); }
    for(auto&f:fon) if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("stuck:"+P,"jobs of an enabled queue not executed while another one is disabled");
    if(on.empty()||c.rng.p(30)) mon::nap_us(c.rng(3000)); if(early||preran!=base) mon::fail_s("disabled:"+P,mon::fmt("%d jobs of a disabled queue executed",early.load()+preran.load()-base));
    auto sz=px.get_queue_size(); if(kind==2&&sz.size()==(size_t)k&&sz[q]!=(size_t)(cnt[q]+pre-preran)) mon::fail_s("size:"+P,mon::fmt("disabled queue reports %zu of its %d jobs",sz[q],cnt[q]+pre-preran.load()));
    qs[q]->off=false; if(two) qs[q2]->off=false; en(q,true); if(two) en(q2,true);
    for(auto&f:foff) if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("lost:"+P,"job of a queue enabled again never executed");
    if(!mon::wait_for([&]{ return preran==pre; },25)) mon::fail_s("lost:"+P,"job of a queue enabled again never executed");
    for(int t=0;t<k;++t){ if(qs[t]->runs!=cnt[t]) mon::fail_s("lost:"+P,mon::fmt("%d of %d jobs of queue %d executed",qs[t]->runs.load(),cnt[t],t+1)); if(w==1&&kind!=2&&kind!=3) for(size_t i=1;i<qs[t]->order.size();++i) if(qs[t]->order[i]<qs[t]->order[i-1]) { mon::fail_s("fifo:"+P,"jobs out of order"); break; } for(int x:qs[t]->order) sig=mon::mix(sig*7+x+t*64); } }
  c.sig(sig); }

// a servant in a scheduler with priorities: members, callbacks and works of given priority
struct Trace { std::mutex m; std::vector<std::pair<int,int>> v; std::atomic<int> cb{0}; std::atomic<bool> bad{false}; void add(int pr,int id){ std::lock_guard<std::mutex> l(m); v.emplace_back(pr,id); mon::ev(); } };
struct Sv : ba::trackable_servant<> { Trace* t; std::atomic<bool>* go; std::atomic<int>* held; bool ctor=true; Sv(ba::any_weak_scheduler<> w,Trace* x,SP pool,std::atomic<bool>* g,std::atomic<int>* h):ba::trackable_servant<>(w,pool),t(x),go(g),held(h){} ~Sv(){ t->add(4,-1); }
  void hold(){ (*held)++; while(!*go) mon::nap_us(30); } void m1(int id){ t->add(1,id); } int m2(int id){ t->add(2,id); return id; } void m3(int id){ t->add(3,id); } void m9(int id){ t->add(4,id); }
  void work(int id,int wp,int cp){ Trace* x=t; this->post_callback([id]{ return id; },[x,id,cp](ba::expected<int> e){ if(e.get()!=id) x->bad=true; x->add(100+cp,id); x->cb++; },"w",(size_t)wp,(size_t)cp); } };
struct Px : ba::servant_proxy<Px,Sv> { template<class S> Px(S s,Trace* t,SP p,std::atomic<bool>* g,std::atomic<int>* h):ba::servant_proxy<Px,Sv>(s,t,p,g,h){}
  BOOST_ASYNC_SERVANT_POST_CTOR(3) BOOST_ASYNC_SERVANT_POST_DTOR(4) BOOST_ASYNC_FUTURE_MEMBER(hold,1) BOOST_ASYNC_FUTURE_MEMBER(m1,1) BOOST_ASYNC_FUTURE_MEMBER(m2,2) BOOST_ASYNC_POST_MEMBER(m3,3) BOOST_ASYNC_POST_MEMBER(m9,9) BOOST_ASYNC_FUTURE_MEMBER(work,1) };
static void servant_case(Case& c){ c.chaos(); int n=c.rng.range(2,40); int k=0; SP pool=mk_cont<AC,void>(true,c.rng.range(1,3),c.rng(4),k,c.rng); c.say("servant members=%d poolqueues=%d chaos=%d",n,k,mon::S().chaos.load()); Trace t; std::atomic<bool> go{false}; std::atomic<int> held{0}; int works=c.rng(10); uint64_t sig=1;
  { auto sch=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>>>(ba::any_queue_container_config<ba::threadsafe_list<>>(1),ba::any_queue_container_config<ba::lockfree_queue<>>(3));
    { Px p(sch,&t,pool,&go,&held); auto h=p.hold(); mon::wait_for([&]{ return held==1; },25); std::vector<std::future<void>> f; std::vector<std::future<int>> fi; for(int i=0;i<n;++i) switch(c.rng(4)){ case 0: f.push_back(p.m1(i)); break; case 1: fi.push_back(p.m2(i)); break; case 2: p.m3(i); break; case 3: p.m9(i); break; }
      go=true; h.get(); for(auto&x:f) x.get(); for(auto&x:fi) x.get(); 
      for(int i=0;i<works;++i) p.work(i,c.rng(k+2),c.rng.range(0,5)); if(!mon::wait_for([&]{ return t.cb==works; },25)) mon::fail_s("lost:servant",mon::fmt("%d of %d callbacks with priority",t.cb.load(),works)); } }
  if(t.bad) mon::fail_s("result:servant","wrong result"); int last=0,lastid=-1,seen=0; for(auto&e:t.v){ sig=mon::mix(sig*31+e.first*100+e.second); if(e.first>=100||e.second<0) continue; ++seen; if(e.first<last) mon::fail_s("priority:servant",mon::fmt("member of priority %d executed after one of %d",e.first,last)); if(e.first==last&&e.second<lastid) mon::fail_s("fifo:servant","members of one priority out of order"); last=e.first; lastid=e.second; }
  if(seen!=n) mon::fail_s("lost:servant",mon::fmt("%d of %d calls executed",seen,n)); if(t.v.empty()||t.v.back()!=std::make_pair(4,-1)) mon::fail_s("dtor:servant","servant's destructor is not the last"); c.sig(sig); }
// multiqueue pools: whatever position, policy and way of posting, everything runs once
template<class J,class MK> void spread(Case& c,const char* name,MK mk){ c.chaos(); int n=c.rng.range(1,120), posters=c.rng.range(1,3), w=c.rng.range(1,6); c.say("%s workers=%d jobs=%d posters=%d chaos=%d",name,w,n,posters,mon::S().chaos.load()); std::vector<std::atomic<int>> ran(n*posters); std::atomic<uint64_t> sig{1};
  { auto px=mk((size_t)w); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int t=0;t<posters;++t) seeds.push_back(c.rng.next()); std::mutex m; std::vector<std::future<void>> all;
    for(int t=0;t<posters;++t) th.emplace_back([&,t]{ Case cc{mon::Rng(seeds[t]),c.iter,c.seed,"",c.thorough}; auto p=px; std::vector<std::future<void>> fu; std::vector<Handle> h; for(int i=0;i<n;++i){ int id=t*n+i; size_t pr=cc.rng.p(30)?0:cc.rng.range(1,w+3); if(cc.rng.p(5)) pr=1000000; post_form<J>(cc,p,[&ran,&sig,id]{ if(ran[id]++) mon::fail_s("twice:spread","job executed twice"); mon::ev(); mon::jitter(); sig=mon::mix(sig.load()+id); },pr,fu,h); } std::lock_guard<std::mutex> l(m); for(auto&f:fu) all.push_back(std::move(f)); });
    for(auto&t:th) t.join(); for(auto&f:all) if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s(std::string("lost:")+name,"job never executed"); }
  for(size_t i=0;i<ran.size();++i) if(ran[i]!=1) mon::fail_s(std::string("lost:")+name,mon::fmt("job %zu executed %d times",i,ran[i].load())); c.sig(sig); }
typedef ba::default_find_position<ba::sequential_push_policy> SEQ;
#if PART==1
SCENARIO(prio_single,200,4000){ prio_case<AC,void,ba::default_find_position<>>(c,"prio_single",false); }
SCENARIO(prio_pool,200,4000){ prio_case<AC,void,ba::default_find_position<>>(c,"prio_pool",true); }
SCENARIO(prio_seq,100,2000){ prio_case<AC,void,SEQ>(c,"prio_seq",c.rng.p(50)); }
#elif PART==2
SCENARIO(prio_log,120,2500){ prio_case<AL,void,ba::default_find_position<>>(c,"prio_log",c.rng.p(50)); }
SCENARIO(disable_single,120,2500){ disable_case<AC>(c,"disable_single",false); }
SCENARIO(disable_pool,120,2500){ disable_case<AC>(c,"disable_pool",true); }
SCENARIO(prio_servant,150,3000){ servant_case(c); }
SCENARIO(spread_mq,60,1200){ spread<AC>(c,"mq",[](size_t w){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>(w); }); }
SCENARIO(spread_mqseq,60,1200){ spread<AC>(c,"mqseq",[](size_t w){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::guarded_deque<>,SEQ>>(w); }); }
SCENARIO(spread_smq,60,1200){ spread<AC>(c,"smq",[](size_t w){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<>,SEQ,ba::no_cpu_load_saving,true>>(w); }); }
#endif
