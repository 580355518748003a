// P10: every way of posting with a priority, judged by the exact order of execution; servants sharing a multiple-thread scheduler; disabled queues and thieves.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
using mon::Case;
namespace {
static const size_t MAXP=std::numeric_limits<size_t>::max();
static size_t prio(mon::Rng& g,int k){ return g.p(12)?MAXP:g.p(12)?(size_t)k+g(5):(size_t)g.range(1,k); }
static int qi(size_t p,int k){ return p>(size_t)k?k-1:(int)p-1; }
struct Item { int id; size_t pp,cp; int form; };                                     // pp: priority in the pool (0: does not go there), cp: priority in the servant's scheduler (0: nothing comes)
struct Trace { std::mutex m; std::vector<int> pool,serv; const char* P; std::atomic<int> in{0}; void add(bool s,int id){ if(s&&in.fetch_add(1)) mon::fail_s(std::string("overlap:")+P,"two threads in one servant"); if(s){ mon::jitter(); in.fetch_sub(1); } std::lock_guard<std::mutex> l(m); (s?serv:pool).push_back(id); mon::ev(); } };
template<class J> struct Sv : ba::trackable_servant<J,J> { Trace* t; ba::any_shared_scheduler_proxy<J> other; Sv(ba::any_weak_scheduler<J> w,Trace* x,ba::any_shared_scheduler_proxy<J> p,ba::any_shared_scheduler_proxy<J> o):ba::trackable_servant<J,J>(w,p),t(x),other(o){}
  void flush(){}
  void issue(std::vector<Item>* v,std::atomic<bool>* go,std::atomic<bool>* done){ Trace* x=t; std::vector<std::future<void>> f; std::vector<std::function<void()>> keep;
    for(auto& i:*v){ int id=i.id; auto task=[x,id]{ x->add(false,id); }; auto cb=[x,id](ba::expected<void>){ x->add(true,id); }; auto plain=[x,id]{ x->add(true,id); }; auto O=other; switch(i.form){
      case 0: this->post_callback(task,cb,"0",i.pp,i.cp); break; case 1: this->interruptible_post_callback(task,cb,"1",i.pp,i.cp); break; case 2: this->post_callback(O,task,cb,"2",i.pp,i.cp); break; case 3: this->interruptible_post_callback(O,task,cb,"3",i.pp,i.cp); break;
      case 4: this->call_callback(O,task,cb,"4",i.pp,i.cp); break; case 5: this->interruptible_call_callback(O,task,cb,"5",i.pp,i.cp); break;
      case 6: f.push_back(this->post_future(task,"6",i.pp)); break; case 7: f.push_back(std::move(std::get<0>(this->interruptible_post_future(task,"7",i.pp)))); break; case 8: f.push_back(this->post_future(O,task,"8",i.pp)); break; case 9: f.push_back(std::move(std::get<0>(this->interruptible_post_future(O,task,"9",i.pp)))); break;
      case 10: this->post_self(plain,"10",i.cp); break; case 11: { auto r=this->interruptible_post_self(plain,"11",i.cp); break; } case 12: this->make_safe_post_callback(std::function<void()>(plain),"12",i.cp)(); break;
      case 13: { auto sc=this->make_safe_callback(std::function<void()>(plain),"13",i.cp); f.push_back(ba::post_future(O,[x,id,sc]{ x->add(false,id); sc(); },"13",i.pp)); break; }             // called in the pool: posted
      case 14: ba::post_callback(O,task,this->get_scheduler(),cb,"14",i.pp,i.cp); break; case 15: ba::interruptible_post_callback(O,task,this->get_scheduler(),cb,"15",i.pp,i.cp); break;
      case 16: ba::post_future(O,task,"16",i.pp); break; default: O.post(mkjob<J>(task,"17"),i.pp); } }
    *done=true; while(!*go) mon::nap_us(40); } };
template<class J> struct Px : ba::servant_proxy<Px<J>,Sv<J>,J> { typedef typename ba::servant_proxy<Px<J>,Sv<J>,J>::callable_type callable_type; template<class S> Px(S s,Trace* t,ba::any_shared_scheduler_proxy<J> p,ba::any_shared_scheduler_proxy<J> o):ba::servant_proxy<Px<J>,Sv<J>,J>(s,t,p,o){}
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",1) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",1) BOOST_ASYNC_FUTURE_MEMBER_LOG(issue,"issue",1) BOOST_ASYNC_FUTURE_MEMBER_LOG(flush,"flush",9) };

template<class J> void forms(Case& c,const char* name){ c.chaos(); int n=c.rng.range(2,50), kp=c.rng.range(2,4), ks=c.rng.range(2,4); bool mixed=c.rng.p(50); c.say("%s operations=%d queues=%d/%d mixed=%d chaos=%d",name,n,kp,ks,mixed,mon::S().chaos.load()); Trace t; t.P=name; std::vector<Item> v; uint64_t sig=1;
  typedef ba::any_queue_container<J> C; typedef ba::any_queue_container_config<ba::lockfree_queue<J>> L; typedef ba::any_queue_container_config<ba::threadsafe_list<J>> T;
  for(int i=0;i<n;++i){ Item x{i,0,0,c.rng(18)}; if(x.form<10||x.form>12) x.pp=prio(c.rng,kp); if(x.form<6||(x.form>=10&&x.form<=15)) x.cp=prio(c.rng,ks); v.push_back(x); }
  { std::atomic<bool> gate{false},go{false},issued{false}; ba::any_shared_scheduler_proxy<J> pool=mixed?ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<C>>((size_t)1,T(1),L(kp-1)):ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<C>>((size_t)1,L(kp)); ba::any_shared_scheduler_proxy<J> s=mixed?ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<C>>(L(1),T(ks-1)):ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<C>>(T(ks));
    std::atomic<bool> held{false}; pool.post(mkjob<J>([&]{ held=true; while(!gate) mon::nap_us(40); }),1); if(!mon::wait_for([&]{ return held.load(); },25)) mon::fail_s(std::string("stuck:")+name,"free worker takes no job");
    { Px<J> p(s,&t,pool,pool); auto f=p.issue(&v,&go,&issued); mon::wait_for([&]{ return issued.load(); },25); auto last=ba::post_future(pool,[]{},"last",MAXP); gate=true; if(last.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s(std::string("lost:")+name,"job of the last queue never executed"); last=ba::post_future(pool,[]{},"last2",MAXP); last.wait(); go=true; f.wait(); auto g=p.flush(); if(g.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s(std::string("lost:")+name,"member of the last queue never executed"); } }
  std::vector<Item*> pq,sq; for(auto&x:v) if(x.pp) pq.push_back(&x); std::stable_sort(pq.begin(),pq.end(),[&](Item*a,Item*b){ return qi(a->pp,kp)<qi(b->pp,kp); });
  for(auto&x:v) if(x.cp&&!x.pp) sq.push_back(&x); for(auto x:pq) if(x->cp) sq.push_back(x); std::stable_sort(sq.begin(),sq.end(),[&](Item*a,Item*b){ return qi(a->cp,ks)<qi(b->cp,ks); });
  auto cmp=[&](std::vector<int>& got,std::vector<Item*>& want,const char* where){ if(got.size()!=want.size()) mon::fail_s(std::string("lost:")+name,mon::fmt("%zu of %zu operations executed in the %s",got.size(),want.size(),where)); else for(size_t i=0;i<got.size();++i) if(got[i]!=want[i]->id){ auto&g=v[got[i]]; mon::fail_s(std::string("priority:")+name,mon::fmt("%s: operation of form %d with priorities %zu, %zu executed at place %zu, where one of form %d with %zu, %zu was due",where,g.form,g.pp,g.cp,i,want[i]->form,want[i]->pp,want[i]->cp)); break; } };
  cmp(t.pool,pq,"pool"); cmp(t.serv,sq,"servant's scheduler"); for(auto&x:v) sig=mon::mix(sig*31+x.form*100+qi(x.pp?x.pp:1,kp)*10+qi(x.cp?x.cp:1,ks)); c.sig(sig); }

// servants in a multiple-thread scheduler with priorities
struct MS { Trace* t; MS(Trace* x):t(x){} void hold(std::atomic<int>* h,std::atomic<bool>* go){ (*h)++; while(!*go) mon::nap_us(40); } void m1(int id){ t->add(true,id); } void m2(int id){ t->add(true,id); } int m3(int id){ t->add(true,id); return id; } void m9(int id){ t->add(true,id); } };
struct MP : ba::servant_proxy<MP,MS> { template<class S> MP(S s,Trace* t):ba::servant_proxy<MP,MS>(s,t){} BOOST_ASYNC_SERVANT_POST_CTOR(1) BOOST_ASYNC_SERVANT_POST_DTOR(4) BOOST_ASYNC_FUTURE_MEMBER(hold,1) BOOST_ASYNC_POST_MEMBER(m1,1) BOOST_ASYNC_FUTURE_MEMBER(m2,2) BOOST_ASYNC_FUTURE_MEMBER(m3,3) BOOST_ASYNC_POST_MEMBER(m9,9) };
static void mt(Case& c){ c.chaos(); int w=c.rng.range(1,3), k=c.rng.range(2,4), cl=c.rng.range(w,4), n=c.rng.range(1,40); typedef ba::any_queue_container_config<ba::lockfree_queue<>> L; typedef ba::any_queue_container_config<ba::threadsafe_list<>> T; c.say("mt workers=%d servants=%d queues=%d calls=%d chaos=%d",w,cl,k,n,mon::S().chaos.load()); std::vector<std::unique_ptr<Trace>> tr; for(int i=0;i<cl;++i){ tr.push_back(std::make_unique<Trace>()); tr.back()->P="mt"; } uint64_t sig=1; std::vector<std::vector<std::pair<int,int>>> want(cl);
  { SP s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>>>((size_t)w,(size_t)cl,T(1),L(k-1)); std::atomic<bool> go{false}; std::atomic<int> held{0};
    { std::vector<MP> p; for(int i=0;i<cl;++i) p.emplace_back(std::make_tuple(s,(size_t)i),tr[i].get()); std::vector<std::future<void>> f; std::vector<std::future<int>> fi; int h=c.rng(cl-w+1); for(int i=0;i<w;++i) f.push_back(p[h+i].hold(&held,&go)); if(!mon::wait_for([&]{ return held==w; },25)) mon::fail_s("stuck:mt","free threads do not take jobs");   // all threads busy
      for(int i=0;i<n;++i){ int sv=c.rng(cl); int m=c.rng(4); auto&q=p[sv]; switch(m){ case 0: q.m1(i); want[sv].push_back({qi(1,k),i}); break; case 1: f.push_back(q.m2(i)); want[sv].push_back({qi(2,k),i}); break; case 2: fi.push_back(q.m3(i)); want[sv].push_back({qi(3,k),i}); break; default: q.m9(i); want[sv].push_back({qi(9,k),i}); } }
      go=true; for(auto&x:f) if(x.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("lost:mt","member never executed"); for(auto&x:fi) x.wait(); } }
  for(int i=0;i<cl;++i){ std::stable_sort(want[i].begin(),want[i].end(),[](auto&a,auto&b){ return a.first<b.first; }); auto&g=tr[i]->serv; if(g.size()!=want[i].size()) mon::fail_s("lost:mt",mon::fmt("servant %d: %zu of %zu calls executed",i,g.size(),want[i].size())); else for(size_t j=0;j<g.size();++j) if(g[j]!=want[i][j].second){ mon::fail_s("priority:mt",mon::fmt("servant %d: call %d executed at place %zu, call %d of queue %d was due: %s",i,g[j],(int)j,want[i][j].second,want[i][j].first+1,[&]{ std::string o; for(auto x:g){ int qx=-1; for(auto&y:want[i]) if(y.second==x) qx=y.first; o+=mon::fmt("%d(%d) ",x,qx+1); } return o; }().c_str())); break; } for(auto x:g) sig=mon::mix(sig*31+x); } c.sig(sig); }

// an idle thief next to a pool with priorities: takes the better queues first and never from a disabled one
template<class MK> void thief(Case& c,const char* name,MK mk){ c.chaos(); int w=c.rng.range(1,2), k=c.rng.range(2,4), n=c.rng.range(4,50), tw=c.rng.range(1,2); typedef ba::any_queue_container_config<ba::lockfree_queue<>> L; typedef ba::any_queue_container_config<ba::threadsafe_list<>> T; int off=c.rng(k); bool dis=c.rng.p(60); c.say("%s workers=%d thieves=%d queues=%d jobs=%d disabled=%d chaos=%d",name,w,tw,k,n,dis?off+1:0,mon::S().chaos.load()); Trace t; uint64_t sig=1; std::vector<int> q(n,0); std::vector<std::unique_ptr<std::atomic<int>>> runs; for(int i=0;i<n;++i) runs.push_back(std::make_unique<std::atomic<int>>(0));
  { SP a=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<>>>((size_t)w,T(1),L(k-1)); SP b=mk((size_t)tw); SP comp=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a,b); std::atomic<bool> ga{false},gb{false}; std::atomic<int> ha{0},hb{0};
    for(int i=0;i<tw;++i) b.post([&]{ hb++; while(!gb) mon::nap_us(40); },1); mon::wait_for([&]{ return hb==tw; },25); for(int i=0;i<w;++i) a.post([&]{ ha++; while(!ga) mon::nap_us(40); },1);
    bool held=mon::wait_for([&]{ return ha+hb==w+tw; },25); if(!held) mon::fail_s(std::string("stuck:")+name,"free workers do not take jobs");
    if(dis) a.get_weak_scheduler().lock().enable_queue(off+1,false); std::atomic<int> early{0}; std::atomic<bool> disabled{dis};
    // thieves may also execute what belongs to pool b: nothing is posted there
    for(int i=0;i<n;++i){ q[i]=c.rng(k); a.post([&,i]{ if(disabled&&q[i]==off) early++; t.add(false,i); (*runs[i])++; mon::jitter(); },(size_t)q[i]+1); }
    gb=true; int due=0; for(int i=0;i<n;++i) if(!(dis&&q[i]==off)) ++due; auto cnt=[&]{ int s=0; for(int i=0;i<n;++i) s+=*runs[i]; return s; };
    if(!mon::wait_for([&]{ return cnt()>=due; },25)) mon::fail_s(std::string("lost:")+name,mon::fmt("idle stealing workers executed %d of %d jobs",cnt(),due)); if(dis) mon::nap_us(c.rng(2500));
    if(early) mon::fail_s(std::string("disabled:")+name,mon::fmt("%d jobs of a disabled queue executed",early.load()));
    if(tw==1&&!early){ std::lock_guard<std::mutex> l(t.m); for(size_t i=1;i<t.pool.size();++i) if(q[t.pool[i]]<q[t.pool[i-1]]){ mon::fail_s(std::string("priority:")+name,mon::fmt("stealing worker took a job of queue %d before one of queue %d",q[t.pool[i-1]]+1,q[t.pool[i]]+1)); break; } }
    disabled=false; if(dis) a.get_weak_scheduler().lock().enable_queue(off+1,true); ga=true; if(!mon::wait_for([&]{ return cnt()>=n; },25)) mon::fail_s(std::string("lost:")+name,"job of a queue enabled again never executed"); }
  for(int i=0;i<n;++i) if(*runs[i]!=1) mon::fail_s(std::string("lost:")+name,mon::fmt("job executed %d times",runs[i]->load())); for(auto x:t.pool) sig=mon::mix(sig*31+q[x]); c.sig(sig); }
}
SCENARIO(forms_any,120,2500){ forms<AC>(c,"forms_any"); }
SCENARIO(forms_log,80,2000){ forms<AL>(c,"forms_log"); }
SCENARIO(mt_prio,100,2000){ mt(c); }
SCENARIO(thief_smq,60,1200){ thief(c,"thief_smq",[](size_t w){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>(w); }); }
SCENARIO(thief_st,60,1200){ thief(c,"thief_st",[](size_t w){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<>>>(w); }); }
