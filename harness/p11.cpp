// P11: a composite routes to the pool of the priority, stealing pools help the others, what a composite reports is what its pools report.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
using mon::Case; typedef boost::thread::id Tid; typedef ba::any_interruptible Handle;
template<class J> using PX=ba::any_shared_scheduler_proxy<J>;
template<class J> using L=ba::lockfree_queue<J>; template<class J> using T=ba::threadsafe_list<J>; template<class J> using D=ba::guarded_deque<J>;
typedef ba::default_find_position<ba::sequential_push_policy> SEQ;
enum { TP_L,TP_D,TP_Q,MQ_T,MQ_D,ST,SMQ_T,SMQ_L,SINGLE,ASIO,KINDS };
static const char* kname[]={"tp","tpdeque","tpcontainer","mq","mqdeque","stealtp","stealmq","stealmqseq","single","asio"};
static bool steals(int k){ return k==ST||k==SMQ_T||k==SMQ_L||k==ASIO; }
static bool lends(int k){ return k!=SINGLE&&k!=ASIO; }
template<class J> PX<J> mk(int k,size_t w){ switch(k){
  case TP_L: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<L<J>>>(w); case TP_D: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<D<J>>>(w);
  case TP_Q: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<J>>>(w,ba::any_queue_container_config<L<J>>(1),ba::any_queue_container_config<T<J>>(1));
  case MQ_T: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<T<J>>>(w); case MQ_D: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<D<J>,SEQ>>(w);
  case ST: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<D<J>>>(w); case SMQ_T: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<T<J>>>(w); case SMQ_L: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<L<J>,SEQ>>(w);
  case SINGLE: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<L<J>>>();
  default: if constexpr(std::is_same<J,AC>::value) return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(w,mon::mix(w+mon::S().iter)%2==0); else return mk<J>(TP_L,w); } }
template<class J> struct Subs { std::vector<PX<J>> p; std::vector<int> kind,w; std::vector<std::vector<Tid>> ids; std::string txt; PX<J> comp;
  void add(int k,int n){ kind.push_back(k); w.push_back(k==SINGLE?1:n); p.push_back(mk<J>(k,n)); txt+=mon::fmt("%s%s*%d",txt.empty()?"":",",kname[k],w.back()); }
  void build(){ typedef ba::composite_threadpool_scheduler<J> C; switch(p.size()){ case 1: comp=ba::make_shared_scheduler_proxy<C>(p[0]); break; case 2: comp=ba::make_shared_scheduler_proxy<C>(p[0],p[1]); break; case 3: comp=ba::make_shared_scheduler_proxy<C>(p[0],p[1],p[2]); break; default: comp=ba::make_shared_scheduler_proxy<C>(p[0],p[1],p[2],p[3]); }
    for(auto&x:p) ids.push_back(x.thread_ids()); }
  int where(Tid t)const{ for(size_t i=0;i<ids.size();++i) for(auto&x:ids[i]) if(x==t) return (int)i; return -1; }
  void drop(){ comp=PX<J>(); p.clear(); } };
struct Ent { size_t prio=0; std::atomic<int> runs{0}; Tid t; };
template<class J> bool allowed(Subs<J> const& s,Ent const& e){ int at=s.where(e.t); if(at<0) return false; if(e.prio==0||e.prio>s.p.size()) { if(s.kind[at]==SINGLE||!steals(s.kind[at])) return true; return true; } if(at==(int)e.prio-1) return true; return lends(s.kind[e.prio-1])&&steals(s.kind[at]); }
struct Sv : ba::trackable_servant<> { Sv(ba::any_weak_scheduler<> w,SP pool):ba::trackable_servant<>(w,pool){} void go(std::function<void()> f,size_t prio,std::atomic<int>* cb,int how){ if(how==0) this->post_callback([f]{ f(); },[cb](ba::expected<void>){ (*cb)++; },"w",prio,0); else if(how==1) { auto h=this->interruptible_post_callback([f]{ f(); },[cb](ba::expected<void>){ (*cb)++; },"w",prio,0); (void)h; } else this->post_future([f,cb]{ f(); (*cb)++; },"w",prio); } };
struct Px : ba::servant_proxy<Px,Sv> { template<class S> Px(S s,SP p):ba::servant_proxy<Px,Sv>(s,p){} BOOST_ASYNC_POST_MEMBER(go) };

template<class J> void route(Case& c){ c.chaos(); Subs<J> s; int n=c.rng.range(1,4); for(int i=0;i<n;++i){ int k=c.rng(KINDS); if(k==ASIO&&!std::is_same<J,AC>::value) k=TP_L; s.add(k,c.rng.range(1,3)); } int jobs=c.rng.range(1,80); bool drop=c.rng.p(50), late=c.rng.p(50); c.say("route subs=%s jobs=%d drop=%d late=%d chaos=%d",s.txt.c_str(),jobs,drop,late,mon::S().chaos.load()); s.build();
  std::vector<std::unique_ptr<Ent>> v; for(int i=0;i<jobs;++i) v.push_back(std::make_unique<Ent>()); std::atomic<int> cb{0}; int cbs=0; std::vector<std::future<void>> fu; std::vector<Handle> h;
  bool sv=false; { std::unique_ptr<Px> px; SP sch; if constexpr(std::is_same<J,AC>::value) if(c.rng.p(50)){ sv=true; sch=mk_single(); px=std::make_unique<Px>(sch,s.comp); }
    auto wk=s.comp.get_weak_scheduler();
    for(int i=0;i<jobs;++i){ Ent* e=v[i].get(); e->prio=c.rng.p(25)?0:c.rng.range(1,n+(c.rng.p(15)?3:0)); std::function<void()> f=[e]{ if(e->runs++) mon::fail_s("twice:route","job executed twice"); e->t=boost::this_thread::get_id(); mon::ev(); mon::jitter(); };
      switch(c.rng(sv?8:6)){ case 0: s.comp.post(mkjob<J>(f),e->prio); break; case 1: fu.push_back(ba::post_future(s.comp,f,"f",e->prio)); break; case 2: wk.lock().post(mkjob<J>(f),e->prio); break; case 3: h.push_back(s.comp.interruptible_post(mkjob<J>(f),e->prio)); break;
        case 4: { auto l=wk.lock(); h.push_back(l.interruptible_post(mkjob<J>(f),e->prio)); break; } case 5: if(e->prio==0){ s.comp.post(mkjob<J>(f)); break; } else if(e->prio<=s.p.size()){ s.p[e->prio-1].post(mkjob<J>(f),c.rng(3)); break; } else { auto x=ba::interruptible_post_future(s.comp,f,"i",e->prio); fu.push_back(std::move(std::get<0>(x))); break; }
        default: ++cbs; px->go(f,e->prio,&cb,c.rng(3)); } }
    for(auto&f:fu) if(f.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("lost:route","job never executed");
    if(px) { auto f=ba::post_future(sch,[]{}); f.wait(); if(!mon::wait_for([&]{ return cb==cbs; },25)) mon::fail_s("lost:route","callback never called"); }
    if(late) if(!mon::wait_for([&]{ for(auto&e:v) if(!e->runs) return false; return true; },25)) mon::fail_s("lost:route","job never executed");
    px.reset(); if(drop) s.comp=PX<J>(); }
  std::vector<PX<J>> keep; size_t np=s.p.size(); if(drop) std::swap(keep,s.p); s.drop(); for(auto&k:keep) k=PX<J>(); for(size_t i=0;i<np;++i) s.p.emplace_back();
  // a thread of the library may hold the last reference of a scheduler for a moment (it posts a callback to it): the servant, and with it the composite, may end a bit later than our proxies
  if(sv) mon::wait_for([&]{ for(auto&e:v) if(!e->runs) return false; return true; },25);
  uint64_t sg=1; for(auto&e:v){ if(e->runs!=1) { mon::fail_s("lost:route",mon::fmt("job with priority %zu executed %d times",e->prio,e->runs.load())); continue; } if(!allowed(s,*e)) mon::fail_s("wrong-pool:route",mon::fmt("job for pool %zu executed in pool %d (%s)",e->prio,s.where(e->t)+1,s.txt.c_str())); sg=mon::mix(sg*31+s.where(e->t)+e->prio*8); }
  c.sig(sg); }

// one pool is blocked, its queued jobs must be executed by an idle stealing one; a single thread's jobs must wait
static void steal(Case& c){ c.chaos(); Subs<AC> s; int vic[]={TP_L,TP_D,TP_Q,MQ_T,MQ_D,ST,SMQ_T,SMQ_L}, thf[]={ST,SMQ_T,SMQ_L,ASIO}; int a=vic[c.rng(8)], b=thf[c.rng(4)]; bool zero=a<=TP_Q&&c.rng.p(20); bool first=c.rng.p(50), single=c.rng.p(40); int wa=zero?0:c.rng.range(1,3), wb=c.rng.range(1,2); size_t ia,ib,is=99;
  if(first){ s.add(a,wa); ia=0; s.add(b,wb); ib=1; } else { s.add(b,wb); ib=0; s.add(a,wa); ia=1; } if(single){ s.add(SINGLE,1); is=2; }
  int jobs=c.rng.range(1,40); c.say("steal subs=%s jobs=%d chaos=%d",s.txt.c_str(),jobs,mon::S().chaos.load()); s.build(); std::string P=std::string("steal:")+kname[a]+":"+kname[b]; uint64_t sg=1;
  std::atomic<bool> go{false}; std::atomic<int> held{0}; std::vector<std::atomic<int>> ran(jobs),sran(jobs); std::vector<Tid> at(jobs); std::atomic<bool> sbad{false};
  { std::function<void()> blk; std::atomic<int> blkdone{0}; SP pa=s.p[ia]; int need=wa; auto wpa=pa.get_weak_scheduler();
    blk=[&,wpa]{ mon::jitter(); if(s.where(boost::this_thread::get_id())!=(int)ia&&!go){ mon::nap_us(50); auto l=wpa.lock(); l.post(AC(blk)); return; } held++; while(!go) mon::nap_us(50); blkdone++; };
    for(int i=0;i<need;++i) pa.post(AC(blk)); if(!mon::wait_for([&]{ return held==need; },25)) mon::fail_s("stuck:"+P,"workers do not take jobs");
    std::atomic<int> sheld{0}; if(single){ s.p[is].post(AC([&]{ sheld++; while(!go) mon::nap_us(50); })); mon::wait_for([&]{ return sheld==1; },25); }
    for(int i=0;i<jobs;++i){ auto f=[&,i]{ at[i]=boost::this_thread::get_id(); if(ran[i]++) mon::fail_s("twice:"+P,"job executed twice"); mon::ev(); mon::jitter(); }; switch(c.rng(3)){ case 0: s.comp.post(AC(f),ia+1); break; case 1: pa.post(AC(f),c.rng(4)); break; default: s.comp.interruptible_post(AC(f),ia+1); }
      if(single) s.comp.post(AC([&,i]{ if(s.where(boost::this_thread::get_id())!=(int)is) sbad=true; if(!go) sbad=true; sran[i]++; }),is+1); }
    if(!mon::wait_for([&]{ for(auto&r:ran) if(!r) return false; return true; },25)) mon::fail_s("nosteal:"+P,mon::fmt("an idle stealing pool leaves jobs of a busy one (%s) in the queue",s.txt.c_str()));
    for(int i=0;i<jobs;++i) if(ran[i]&&s.where(at[i])!=(int)ib) mon::fail_s("wrong-pool:"+P,"job executed in a blocked pool or elsewhere");
    if(single){ mon::nap_us(2000); for(auto&r:sran) if(r) sbad=true; if(sbad) mon::fail_s("steal-single:"+P,"job of a single thread scheduler executed elsewhere"); }
    go=true; pa=SP(); if(c.rng.p(50)) s.p.clear(); s.drop(); if(blkdone!=need) mon::fail_s("lost:"+P,"running jobs not finished at the end"); }
  if(single) for(auto&r:sran) if(r!=1) mon::fail_s("lost:"+P,"job of the single thread scheduler lost"); for(int i=0;i<jobs;++i){ if(ran[i]!=1) mon::fail_s("lost:"+P,mon::fmt("job executed %d times",ran[i].load())); sg=mon::mix(sg*5+s.where(at[i])); }
  c.sig(sg); }
// a free stealing worker takes from its own queue first, then from the first pool, then the second
static void steal_order(Case& c){ c.chaos(); Subs<AC> s; int thf[]={ST,SMQ_T,SMQ_L}, vic[]={TP_L,TP_D,MQ_T,MQ_D}; int pos=c.rng(3), b=thf[c.rng(3)]; for(int i=0;i<3;++i) if(i==pos) s.add(b,1); else { int k=vic[c.rng(4)]; s.add(k,c.rng.range(1,2)); } int jobs=c.rng.range(1,20); c.say("steal_order subs=%s jobs=%d chaos=%d",s.txt.c_str(),jobs,mon::S().chaos.load()); s.build();
  std::atomic<bool> go{false},gob{false}; std::atomic<int> heldb{0},held{0}; std::mutex m; std::vector<int> order; uint64_t sg=1; std::string P=std::string("order:")+kname[b];
  { s.p[pos].post(AC([&]{ heldb++; while(!gob) mon::nap_us(50); })); mon::wait_for([&]{ return heldb==1; },25); int need=0; for(int i=0;i<3;++i) if(i!=pos){ need+=s.w[i]; for(int k=0;k<s.w[i];++k) s.p[i].post(AC([&]{ held++; while(!go) mon::nap_us(50); })); }
    if(!mon::wait_for([&]{ return held==need; },25)) mon::fail_s("stuck:"+P,"workers do not take jobs");
    for(int i=0;i<jobs;++i){ int q=c.rng(3); s.comp.post(AC([&,q]{ std::lock_guard<std::mutex> l(m); order.push_back(q); mon::ev(); }),q+1); } gob=true;
    if(!mon::wait_for([&]{ std::lock_guard<std::mutex> l(m); return (int)order.size()==jobs; },25)) mon::fail_s("nosteal:"+P,"jobs left in the queue of a busy pool"); go=true; s.drop(); }
  std::vector<int> ex=order; std::stable_sort(ex.begin(),ex.end(),[&](int a,int x){ auto r=[&](int q){ return q==pos?-1:q; }; return r(a)<r(x); }); if(ex!=order){ std::string t; for(int x:order) t+=(char)('1'+x); mon::fail_s("steal-order:"+P,"jobs not taken in order of the pools: "+t+" by pool "+std::to_string(pos+1)); } for(int x:order) sg=mon::mix(sg*3+x); c.sig(sg); }
// what a composite reports
static std::set<Tid> ts(std::vector<Tid> const& v){ return std::set<Tid>(v.begin(),v.end()); }
template<class J> void report(Case& c){ c.chaos(); Subs<J> s; int ks[]={TP_D,MQ_D,TP_D,SINGLE,TP_L}; int n=c.rng.range(1,4); bool steal=c.rng.p(30); for(int i=0;i<n;++i) if(steal&&i==n-1) s.add(ST,c.rng.range(1,2)); else s.add(ks[c.rng(4)],c.rng.range(1,3)); int jobs=c.rng.range(0,50); c.say("report subs=%s jobs=%d chaos=%d",s.txt.c_str(),jobs,mon::S().chaos.load()); s.build(); auto wk=s.comp.get_weak_scheduler(); auto lk=wk.lock(); const char* P="report";
  std::vector<Tid> all; for(auto&x:s.ids) all.insert(all.end(),x.begin(),x.end()); size_t nt=0; for(int x:s.w) nt+=x; if(all.size()!=nt||ts(all).size()!=nt) mon::fail_s("ids:report","a pool reports wrong thread ids"); if(s.comp.thread_ids()!=all||lk.thread_ids()!=all) mon::fail_s("ids:report","thread ids of a composite are not those of its pools");
  { std::atomic<int> in{0}; std::mutex m; std::map<Tid,int> seen; auto f=c.rng.p(50)?s.comp.execute_in_all_threads([&]{ std::lock_guard<std::mutex> l(m); seen[boost::this_thread::get_id()]++; in++; mon::ev(); }):lk.execute_in_all_threads([&]{ std::lock_guard<std::mutex> l(m); seen[boost::this_thread::get_id()]++; in++; mon::ev(); }); if(f.size()!=nt) mon::fail_s("all-threads:report",mon::fmt("%zu futures for %zu threads",f.size(),nt)); for(auto&x:f) if(x.wait_for(std::chrono::seconds(25))!=std::future_status::ready) mon::fail_s("all-threads:report","future not ready"); for(auto&t:all) if(seen[t]!=1) mon::fail_s("all-threads:report",mon::fmt("executed %d times in one thread",seen[t])); if(seen.size()!=nt) mon::fail_s("all-threads:report","executed in a foreign thread"); }
  uint64_t sg=1;
  if(!steal){ std::atomic<bool> go{false}; std::atomic<int> held{0}; for(int i=0;i<n;++i){ if(s.kind[i]==MQ_D) for(int k=0;k<s.w[i];++k) s.p[i].post(mkjob<J>([&]{ held++; while(!go) mon::nap_us(50); },"hold"),k+1); else for(int k=0;k<s.w[i];++k) s.p[i].post(mkjob<J>([&]{ held++; while(!go) mon::nap_us(50); },"hold")); }
    if(!mon::wait_for([&]{ return held==(int)nt; },25)) mon::fail_s("stuck:report","workers do not take jobs"); s.comp.reset_max_queue_size(); std::vector<size_t> cnt(n,0); static const char* nm[]={"a","b","c"}; std::map<std::string,size_t> names; std::atomic<int> done{0}; std::vector<std::map<std::string,size_t>> per(n);
    for(int i=0;i<jobs;++i){ int q=c.rng(n); cnt[q]++; const char* t=nm[c.rng(3)]; names[t]++; per[q][t]++; if(c.rng.p(50)) s.comp.post(mkjob<J>([&]{ done++; mon::jitter(); },t),q+1); else lk.post(mkjob<J>([&]{ done++; },t),q+1); }
    for(int how=0;how<2;++how){ auto qs=how?lk.get_queue_size():s.comp.get_queue_size(); if((int)qs.size()!=n) mon::fail_s("queue-size:report","not one size per pool"); else for(int i=0;i<n;++i) if(s.kind[i]!=SINGLE&&qs[i]!=cnt[i]) mon::fail_s("queue-size:report",mon::fmt("pool %d (%s) of composite reports %zu jobs, has %zu",i+1,kname[s.kind[i]],qs[i],cnt[i])); for(size_t x:cnt) sg=mon::mix(sg*64+x);
      auto mx=how?lk.get_max_queue_size():s.comp.get_max_queue_size(); if((int)mx.size()!=n) mon::fail_s("queue-size:report","not one maximum per pool"); else for(int i=0;i<n;++i) if(s.kind[i]==TP_D&&mx[i]!=cnt[i]) mon::fail_s("max-size:report",mon::fmt("maximum of pool %d is %zu, was %zu",i+1,mx[i],cnt[i])); }
    go=true; if(!mon::wait_for([&]{ return done==jobs; },25)) mon::fail_s("lost:report","jobs not executed");
    // all finished and accounted: pass through every worker once more
    if constexpr(std::is_same<J,AL>::value){ auto sum=[&](ba::scheduler_diagnostics const& d){ std::map<std::string,size_t> r; for(auto&x:d.totals()) for(int i=0;i<3;++i) if(x.first==nm[i]) r[x.first]+=x.second.size(); for(auto it=r.begin();it!=r.end();) if(!it->second) it=r.erase(it); else ++it; return r; };
      if(!mon::wait_for([&]{ std::map<std::string,size_t> r; for(auto&p:s.p) for(auto&x:sum(p.get_diagnostics())) r[x.first]+=x.second; return r==names; },25)) mon::fail_s("diagnostics:pools","the pools do not report their jobs");
      for(int how=0;how<2;++how){ auto r=sum(how?lk.get_diagnostics():s.comp.get_diagnostics()); if(r!=names){ std::string t; for(auto&x:r) t+=x.first+"="+std::to_string(x.second)+" "; t+="instead of "; for(auto&x:names) t+=x.first+"="+std::to_string(x.second)+" "; mon::fail_s(std::string("diagnostics:")+(how?"weak":"direct"),"a composite reports other jobs than its pools: "+t); }
        for(int i=0;i<n;++i){ auto q=sum(how?lk.get_diagnostics(i+1):s.comp.get_diagnostics(i+1)); if(q!=per[i]) mon::fail_s(std::string("diagnostics-pos:")+(how?"weak":"direct"),"diagnostics of one pool are not its own"); } }
      s.comp.clear_diagnostics(); for(auto&p:s.p) if(!sum(p.get_diagnostics()).empty()) mon::fail_s("diagnostics:clear","not cleared"); } }
  lk=decltype(lk)(); s.drop(); c.sig(sg); (void)P; }
// mixed pools under load, everything at once, dropped at any moment: nothing lost or run twice
template<class J> void storm(Case& c){ c.chaos(); Subs<J> s; int n=c.rng.range(2,4); for(int i=0;i<n;++i){ int k=c.rng(KINDS); if(k==ASIO&&!std::is_same<J,AC>::value) k=ST; s.add(k,c.rng.range(1,3)); } int posters=c.rng.range(1,4), per=c.rng.range(1,120); bool own=c.rng.p(50); c.say("storm subs=%s posters=%d jobs=%d own=%d chaos=%d",s.txt.c_str(),posters,per,own,mon::S().chaos.load()); s.build();
  std::vector<std::atomic<int>> ran(posters*per*2); std::vector<std::atomic<int>> due(posters*per*2); std::atomic<uint64_t> sig{1}; auto wk=s.comp.get_weak_scheduler();
  { std::vector<std::thread> th; for(int t=0;t<posters;++t){ uint64_t sd=c.rng.next(); th.emplace_back([&,t,sd]{ mon::Rng g(sd); auto px=s.comp; std::vector<PX<J>> subs; if(own) subs=s.p; for(int i=0;i<per;++i){ int id=(t*per+i)*2; due[id]=1; size_t pr=g(n+2); int nest=g.p(30)?g.range(0,n):-1; auto f=[&,id,nest,wk]{ if(ran[id]++) mon::fail_s("twice:storm","job executed twice"); mon::ev(); mon::jitter(); sig=mon::mix(sig.load()^mon::mix(id*8+s.where(boost::this_thread::get_id()))); if(nest>=0){ auto l=wk.lock(); if(l.is_valid()){ due[id+1]=1; l.post(mkjob<J>([&,id]{ if(ran[id+1]++) mon::fail_s("twice:storm","job executed twice"); mon::jitter(); }),nest); } } };
        if(own&&g.p(20)) subs[g(n)].post(mkjob<J>(f)); else if(g.p(20)) px.interruptible_post(mkjob<J>(f),pr); else px.post(mkjob<J>(f),pr); } }); }
    for(auto&t:th) t.join(); if(c.rng.p(50)) mon::nap_us(c.rng(2000)); s.comp=PX<J>(); if(c.rng.p(50)) mon::nap_us(c.rng(300)); std::vector<PX<J>> q; std::swap(q,s.p); while(!q.empty()){ q.erase(q.begin()+c.rng((int)q.size())); } }
  for(size_t i=0;i<ran.size();++i) if(ran[i]!=due[i]) mon::fail_s("lost:storm",mon::fmt("job executed %d times instead of %d",ran[i].load(),due[i].load())); c.sig(sig); }
#if PART==1
SCENARIO(route_ac,120,2500){ route<AC>(c); }
SCENARIO(steal_blocked,120,2500){ steal(c); }
SCENARIO(steal_by_order,100,2000){ steal_order(c); }
SCENARIO(storm_ac,120,2500){ storm<AC>(c); }
#elif PART==2
SCENARIO(route_al,80,1500){ route<AL>(c); }
SCENARIO(report_ac,80,1500){ report<AC>(c); }
SCENARIO(report_al,100,2000){ report<AL>(c); }
SCENARIO(storm_al,80,1500){ storm<AL>(c); }
#endif
