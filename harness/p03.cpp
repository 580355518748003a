// P03 (PART 1,2) / P04 (PART 3): servants behind proxies: thread, mutual exclusion, per-caller order, lifetime.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#if PART==3
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#endif
using mon::Case;
static const int MAXC=8;
struct my_error : std::runtime_error { int id; my_error(int i):std::runtime_error("user"),id(i){} };
// what the monitor knows about one servant; owned by the case, outlives the servant
struct Watch { const char* pool; bool one_thread; std::vector<boost::thread::id> ids; std::atomic<int> ctor{0},dtor{0},in{0},alive{0}; std::atomic<long> calls{0},sent{0};
  std::atomic<int> last[MAXC]; uint64_t trace=0; boost::thread::id tid; std::atomic<bool> gate{true};
  Watch(const char* p,bool o):pool(p),one_thread(o){ for(auto&l:last) l=-1; }
  void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+pool,m); } };
struct Enter { Watch* w; Enter(Watch* x,const char* what):w(x){ mon::ev(); if(w->in.exchange(1,std::memory_order_relaxed)) w->viol("overlap",std::string("servant entered by two threads at once, ")+what);
    auto id=boost::this_thread::get_id(); bool ok=false; for(auto&i:w->ids) ok|=i==id; if(!ok) w->viol("thread",std::string(what)+" outside the scheduler's threads");
    if(w->one_thread){ if(strcmp(what,"ctor")&&id!=w->tid) w->viol("thread",std::string(what)+" not in the servant's thread"); } mon::jitter(); }
  ~Enter(){ mon::jitter(); w->in.store(0,std::memory_order_relaxed); } };
struct Sv {
  Watch* w; long plain=0; std::vector<int> data; mon::MToken tok;   // plain members: touched without synchronisation, watched by TSan
  Sv(Watch* x,int err):w(x),tok(7){ Enter e(w,"ctor"); w->tid=boost::this_thread::get_id(); if(err) throw my_error(err); w->ctor++; w->alive=1; }
  Sv(Sv const&)=delete;
  ~Sv(){ if(!w->ctor) return; Enter e(w,"dtor"); w->dtor++; w->alive=0; if(plain!=w->calls.load(std::memory_order_relaxed)) w->viol("state","servant state lost updates"); if(w->sent.load(std::memory_order_relaxed)!=w->calls.load(std::memory_order_relaxed)) w->viol("early-dtor",mon::fmt("destroyed after %ld of %ld calls",w->calls.load(),w->sent.load())); }
  void call(const char* what,int caller,int seq){ Enter e(w,what); tok.value(); if(!w->alive.load(std::memory_order_relaxed)) w->viol("dead-call","call on a destroyed servant"); while(!w->gate.load()) mon::nap_us(100);
    int l=w->last[caller].exchange(seq,std::memory_order_relaxed); if(seq<=l) w->viol("order",mon::fmt("caller %d: call %d executed after %d",caller,seq,l)); else if(seq!=l+1) w->viol("lost",mon::fmt("caller %d: call %d executed right after %d",caller,seq,l));
    ++plain; if(data.size()<50) data.push_back(seq); w->calls.fetch_add(1,std::memory_order_relaxed); w->trace=mon::mix(w->trace^(caller*4096+seq)); }
  void op(int c,int s){ call("op",c,s); }
  void op2(int c,int s){ call("op2",c,s); }
  void oplog(int c,int s,mon::Token t){ call("oplog",c,s); if(t.value()!=s) w->viol("arg","argument corrupted"); }
  void opthrow(int c,int s){ call("opthrow",c,s); if(s%3==1) throw boost::thread_interrupted(); if(s%3==2) throw s; throw my_error(s); }
  int fut(int c,int s){ call("fut",c,s); return c*100000+s; }
  int futp(int c,int s){ call("futp",c,s); return c*100000+s; }
  mon::MToken futmove(int c,int s,mon::MToken t){ call("futmove",c,s); if(t.value()!=s) w->viol("arg","argument corrupted"); return t; }
  int futthrow(int c,int s){ call("futthrow",c,s); throw my_error(s); return 0; }
  int cbk(int c,int s){ call("cbk",c,s); return s; }
  ba::any_shared_scheduler_proxy<AC> selfpost(int c,int s){ call("selfpost",c,s); return ba::any_shared_scheduler_proxy<AC>(); }
};
class Px : public ba::servant_proxy<Px,Sv> { public:
  template<class S> Px(S s,Watch* w,int e):ba::servant_proxy<Px,Sv>(s,w,e){}
  BOOST_ASYNC_POST_MEMBER(op)
  BOOST_ASYNC_POST_MEMBER(op2,2)
  BOOST_ASYNC_POST_MEMBER(opthrow)
  BOOST_ASYNC_POST_MEMBER_LOG(oplog,"oplog")
  BOOST_ASYNC_FUTURE_MEMBER(fut)
  BOOST_ASYNC_FUTURE_MEMBER(futp,1)
  BOOST_ASYNC_FUTURE_MEMBER(futmove)
  BOOST_ASYNC_FUTURE_MEMBER_LOG(futthrow,"futthrow")
  BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(cbk)
};
// one call through p, checks what can be checked at once
static void do_call(mon::Rng& r,Px& p,Watch& w,int caller,int& seq,std::vector<std::pair<std::future<int>,int>>& futs,int mode){
  int s=seq++; w.sent.fetch_add(1,std::memory_order_relaxed); mon::jitter();
  switch(mode>=0?mode:r(9)){
   case 0: p.op(caller,s); break; case 1: p.op2(caller,s); break; case 2: p.opthrow(caller,s); break; case 3: p.oplog(caller,s,mon::Token(s)); break;
   case 4: futs.emplace_back(p.fut(caller,s),caller*100000+s); break; case 5: futs.emplace_back(p.futp(caller,s),caller*100000+s); break;
   case 6: { auto f=p.futmove(caller,s,mon::MToken(s)); if(r.p(30)){ try{ if(f.get().value()!=s) w.viol("result","wrong future value"); }catch(std::exception& e){ w.viol("result",e.what()); } } break; }
   case 7: { auto f=p.futthrow(caller,s); if(r.p(40)){ try{ f.get(); w.viol("result","exception of a member lost"); }catch(my_error& e){ if(e.id!=s) w.viol("result","wrong exception"); } } break; }
   default: p.cbk([&w,s](ba::expected<int> e){ if(e.has_exception()||e.get()!=s) w.viol("result","unsafe callback got a wrong result"); },caller,s); } }
static void check_futs(std::vector<std::pair<std::future<int>,int>>& f,Watch& w){ for(auto&x:f){ try{ int v=x.first.get(); if(v!=x.second) w.viol("result",mon::fmt("future value %d instead of %d",v,x.second)); }catch(std::exception& e){ w.viol("result",std::string("future: ")+e.what()); } } f.clear(); }
static void finish(Case& c,std::vector<std::unique_ptr<Watch>>& ws,bool scheduler_gone){ uint64_t h=0;
  for(auto&w:ws){ if(!w->ctor) continue; if(!scheduler_gone) mon::wait_for([&]{return w->dtor.load()>0;},25);
    if(w->dtor!=1) w->viol("dtor",mon::fmt("servant destroyed %d times after the last proxy is gone",w->dtor.load())); if(w->calls!=w->sent) w->viol("lost",mon::fmt("%ld of %ld calls executed",w->calls.load(),w->sent.load())); h=mon::mix(h^w->trace); }
  c.sig(h); mon::expect_no_live("leak:servants"); }

template<class MK> void servants_case(Case& c,const char* pool,MK mk,bool fifo_prio){
  c.chaos(); int callers=c.rng.range(1,5),nsv=c.rng.range(1,3),per=c.rng.range(1,c.rng.p(15)?80:25); bool hold=c.rng.p(50); int assign=c.rng.p(60)?25:0; bool failing=c.rng.p(30);
  c.say("%s callers=%d servants=%d ops=%d hold-scheduler=%d reassign%%=%d failing-ctor=%d",pool,callers,nsv,per,hold,assign,failing);
  std::vector<std::unique_ptr<Watch>> ws; for(int i=0;i<nsv;++i) ws.emplace_back(new Watch(pool,true));
  auto sched=mk(); auto ids=sched.thread_ids(); for(auto&w:ws) w->ids=ids;
  { std::vector<Px> px; for(int i=0;i<nsv;++i) px.emplace_back(sched,ws[i].get(),0);
    if(failing){ auto w=new Watch(pool,true); w->ids=ids; ws.emplace_back(w); try{ Px bad(sched,w,42); w->viol("ctor-exception","exception of the servant constructor not reported"); }catch(my_error& e){ if(e.id!=42) w->viol("ctor-exception","wrong exception"); } }
    auto keep=sched; if(!hold){ sched.reset(); keep.reset(); }
    std::atomic<int> go{0}; std::vector<std::thread> th;
    for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); 
      th.emplace_back([&,k,s,mine=px]() mutable { mon::Rng r(s); std::vector<int> own(nsv); std::vector<int> seq(nsv,0); for(int i=0;i<nsv;++i) own[i]=i; std::vector<std::pair<std::future<int>,int>> futs; std::vector<int> futw;
        go.fetch_add(1); while(go.load()<callers) sched_yield();
        for(int i=0;i<per&&!mine.empty();++i){ int j=r((int)mine.size()); int sv=own[j];
          do_call(r,mine[j],*ws[sv],k,seq[sv],futs,-1);
          if(r.p(assign)){ int z=r((int)mine.size()); switch(r(5)){ 
            case 0: mine[j]=mine[z]; own[j]=own[z]; break;                       // copy assignment drops the old reference
            case 1: if(z!=j){ Px t(mine[z]); mine[j]=std::move(t); own[j]=own[z]; } break;
            case 2: { Px t(mine[j]); mon::jitter(); Px u(std::move(t)); own.push_back(own[j]); mine.push_back(std::move(u)); break; }
            case 3: if(mine.size()>1){ mine.erase(mine.begin()+j); own.erase(own.begin()+j); } break;
            default: { Px t(mine[j]); mon::jitter(); } } }
          if(r.p(10)){ for(auto&x:futs){ try{ int v=x.first.get(); if(v!=x.second) ws[0]->viol("result","wrong future value"); }catch(std::exception& e){ ws[0]->viol("result",e.what()); } } futs.clear(); } }
        check_futs(futs,*ws[0]); }); }
    if(c.rng.p(70)) px.clear();
    for(auto&t:th) t.join();
  }
  finish(c,ws,false); }
#define SV(nm,q,fifo,...) static mon::Reg reg_##nm(#nm,[](Case& c){ servants_case(c,#nm,[&c]{ (void)c; return __VA_ARGS__; },fifo); },q,q*20);
#if PART==1
SV(sv_lockfree,60,true,mk_single())
SV(sv_deque,40,true,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<>>>())
#elif PART==2
SV(sv_list,50,true,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::threadsafe_list<>>>())
SV(sv_prio1,40,true,ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>>>(ba::any_queue_container_config<ba::lockfree_queue<>>(1)))
#elif PART==3
// P04
SCENARIO(mt_servants,60,1200){
  c.chaos(); int workers=c.rng.range(1,4),nsv=c.rng.range(1,6),callers=c.rng.range(1,4),per=c.rng.range(2,c.rng.p(15)?120:40); bool early=c.rng.p(50); int deq=c.rng(3); int maxcl=nsv+c.rng(3);
  c.say("workers=%d servants=%d clients=%d callers=%d calls=%d drop-early=%d queue=%d",workers,nsv,maxcl,callers,per,early,deq);
  auto mk=[&]()->SP{ if(deq==2) return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>>>((size_t)workers,(size_t)maxcl,ba::any_queue_container_config<ba::lockfree_queue<>>(1)); if(deq) return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::guarded_deque<>>>((size_t)workers,(size_t)maxcl); return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<>>>((size_t)workers,(size_t)maxcl); };
  std::vector<std::unique_ptr<Watch>> ws; for(int i=0;i<nsv;++i) ws.emplace_back(new Watch("multiple_thread",false));
  { auto sched=mk(); auto ids=sched.thread_ids(); if((int)ids.size()!=workers) mon::fail("thread-ids","%zu ids for %d workers",ids.size(),workers); for(auto&w:ws) w->ids=ids;
    std::vector<Px> px; for(int i=0;i<nsv;++i) px.emplace_back(std::make_tuple(sched,(size_t)i),ws[i].get(),0);
    std::vector<std::thread> th; std::atomic<int> go{0};
    for(int k=0;k<callers;++k){ uint64_t s=c.rng.next(); th.emplace_back([&,k,s,mine=px]() mutable { mon::Rng r(s); std::vector<int> seq(nsv,0); std::vector<std::vector<std::pair<std::future<int>,int>>> futs(nsv);
        go.fetch_add(1); while(go.load()<callers) sched_yield();
        for(int i=0;i<per;++i){ int sv=r(nsv); do_call(r,mine[sv],*ws[sv],k,seq[sv],futs[sv],-1); }
        for(int sv=0;sv<nsv;++sv) check_futs(futs[sv],*ws[sv]); }); }
    if(early) px.clear();
    for(auto&t:th) t.join();
    px.clear();
    for(auto&w:ws) if(!mon::wait_for([&]{return w->dtor.load()>0;},25)) w->viol("dtor","servant not destroyed after its last proxy is gone");
  }
  finish(c,ws,true); }
// a blocked servant does not hold up the others as long as a thread is free
SCENARIO(mt_blocked,25,300){
  c.chaos(); int workers=c.rng.range(2,4),nsv=c.rng.range(2,6); int nb=c.rng.range(1,std::min(workers-1,nsv-1)); c.say("workers=%d servants=%d blocked=%d",workers,nsv,nb);
  std::vector<std::unique_ptr<Watch>> ws; for(int i=0;i<nsv;++i) ws.emplace_back(new Watch("multiple_thread",false));
  { auto sched=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<>>>((size_t)workers,(size_t)nsv); auto ids=sched.thread_ids(); for(auto&w:ws) w->ids=ids;
    std::vector<Px> px; for(int i=0;i<nsv;++i) px.emplace_back(std::make_tuple(sched,(size_t)i),ws[i].get(),0);
    std::vector<int> order(nsv); for(int i=0;i<nsv;++i) order[i]=i; for(int i=nsv-1;i>0;--i) std::swap(order[i],order[c.rng(i+1)]);
    std::vector<int> seq(nsv,0); std::vector<std::pair<std::future<int>,int>> bf;
    for(int b=0;b<nb;++b){ int sv=order[b]; ws[sv]->gate=false; for(int i=0;i<3;++i) do_call(c.rng,px[sv],*ws[sv],0,seq[sv],bf,i==1?4:0); }
    mon::nap_us(c.rng(2000));
    for(int i=nb;i<nsv;++i){ int sv=order[i]; std::vector<std::pair<std::future<int>,int>> f; for(int j=0;j<4;++j) do_call(c.rng,px[sv],*ws[sv],0,seq[sv],f,j==3?4:1);
      for(auto&x:f) if(x.first.wait_for(std::chrono::seconds(25))!=std::future_status::ready) ws[sv]->viol("starved",mon::fmt("servant %d not serviced in 25 s: %d of %d threads are free",sv,workers-nb,workers)); 
      check_futs(f,*ws[sv]); }
    for(auto&w:ws) w->gate=true;
    for(auto&x:bf) x.first.wait();
    px.clear();
    for(auto&w:ws) if(!mon::wait_for([&]{return w->dtor.load()>0;},25)) w->viol("dtor","servant not destroyed after its last proxy is gone");
  }
  finish(c,ws,true); }
// destruction of a servant is ordered like its calls: a blocked neighbour does not delay it, its own pending calls come first
SCENARIO(mt_dtor,25,300){
  c.chaos(); int workers=c.rng.range(2,4),nsv=c.rng.range(2,5); c.say("workers=%d servants=%d",workers,nsv);
  std::vector<std::unique_ptr<Watch>> ws; for(int i=0;i<nsv;++i) ws.emplace_back(new Watch("multiple_thread",false));
  { auto sched=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<>>>((size_t)workers,(size_t)nsv); auto ids=sched.thread_ids(); for(auto&w:ws) w->ids=ids;
    std::vector<std::unique_ptr<Px>> px; for(int i=0;i<nsv;++i) px.emplace_back(new Px(std::make_tuple(sched,(size_t)i),ws[i].get(),0));
    int b=c.rng(nsv); std::vector<int> seq(nsv,0); std::vector<std::pair<std::future<int>,int>> f; ws[b]->gate=false; do_call(c.rng,*px[b],*ws[b],0,seq[b],f,0);
    for(int i=0;i<nsv;++i) if(i!=b){ int n=c.rng(6); for(int j=0;j<n;++j) do_call(c.rng,*px[i],*ws[i],0,seq[i],f,c.rng.p(50)?0:1); px[i].reset(); }
    for(int i=0;i<nsv;++i) if(i!=b&&!mon::wait_for([&]{return ws[i]->dtor.load()>0;},25)) ws[i]->viol("dtor-blocked",mon::fmt("destruction of servant %d waits for blocked servant %d",i,b));
    ws[b]->gate=true; px.clear();
    if(!mon::wait_for([&]{return ws[b]->dtor.load()>0;},25)) ws[b]->viol("dtor","servant not destroyed"); }
  finish(c,ws,true); }
// jobs which end in unusual ways (posted raw, thrown out of the servant's queue) leave the servant usable
SCENARIO(mt_odd,40,600){
  c.chaos(); int workers=c.rng.range(1,3),nsv=c.rng.range(1,4),n=c.rng.range(3,40); c.say("workers=%d servants=%d calls=%d",workers,nsv,n);
  std::vector<std::unique_ptr<Watch>> ws; for(int i=0;i<nsv;++i) ws.emplace_back(new Watch("multiple_thread",false));
  { auto sched=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<>>>((size_t)workers,(size_t)nsv); auto ids=sched.thread_ids(); for(auto&w:ws) w->ids=ids;
    std::vector<Px> px; for(int i=0;i<nsv;++i) px.emplace_back(std::make_tuple(sched,(size_t)i),ws[i].get(),0);
    std::vector<int> seq(nsv,0); std::vector<std::vector<std::pair<std::future<int>,int>>> f(nsv); std::atomic<int> odd{0}; int sent=0;
    for(int i=0;i<n;++i){ int sv=c.rng(nsv); if(c.rng.p(40)){ int k=c.rng(4); ++sent; auto job=[k,&odd]{ odd++; if(k==0) throw boost::thread_interrupted(); if(k==1) throw std::runtime_error("x"); if(k==2) throw 1; }; if(c.rng.p(50)) sched.post(AC(job),(size_t)sv*100000); else sched.interruptible_post(AC(job),(size_t)sv*100000); }
      else do_call(c.rng,px[sv],*ws[sv],0,seq[sv],f[sv],-1); }
    for(int sv=0;sv<nsv;++sv) do_call(c.rng,px[sv],*ws[sv],0,seq[sv],f[sv],4);
    for(int sv=0;sv<nsv;++sv){ for(auto&x:f[sv]) if(x.first.wait_for(std::chrono::seconds(25))!=std::future_status::ready) ws[sv]->viol("starved","servant not serviced in 25 s"); check_futs(f[sv],*ws[sv]); }
    if(!mon::wait_for([&]{ return odd==sent; },25)) mon::fail_s("lost:multiple_thread",mon::fmt("%d of %d raw jobs executed",odd.load(),sent));
    px.clear();
    for(auto&w:ws) if(!mon::wait_for([&]{return w->dtor.load()>0;},25)) w->viol("dtor","servant not destroyed after its last proxy is gone"); }
  finish(c,ws,true); }
#endif
