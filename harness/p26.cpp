// P26: thread ids and per-thread functions cover each worker exactly once.
#ifndef BOOST_ASYNCHRONOUS_PRCTL_SUPPORT
#define BOOST_ASYNCHRONOUS_PRCTL_SUPPORT
#endif
#include "anypool.hpp"
#include <pthread.h>
#include <sched.h>
#include <set>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
using mon::fail_s; using mon::fmt;
#define K(k) (std::string("threads:")+k)
enum { X_SINGLE,X_TP,X_MQ,X_STEALTP,X_STEALMQ,X_COMPOSITE,X_ASIO,X_MULTI,X_IO,X_COUNT };
static const char* xn[]={"single","tp","mq","stealtp","stealmq","composite","asio","multi","io"};
typedef ba::lockfree_queue<> LQ; typedef ba::guarded_deque<> DQ; typedef ba::threadsafe_list<> TL;
static SP pool(int k,size_t w,std::string const& n){
  if(n.empty()) switch(k){ case X_SINGLE: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>(); case X_TP: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<DQ>>(w); case X_MQ: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>(w);
    case X_STEALTP: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<DQ,ba::no_cpu_load_saving,true>>(w); case X_STEALMQ: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL,ba::default_find_position<>,ba::default_save_cpu_load<>,true>>(w);
    case X_ASIO: return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(w); case X_MULTI: return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>(w,(size_t)3); case X_IO: return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<DQ>>(w,w+2);
    default: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(pool(X_TP,w,""),ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL>>((size_t)1),pool(X_ASIO,1,"")); }
  switch(k){ case X_SINGLE: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>(n); case X_TP: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<DQ>>(w,n); case X_MQ: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>(w,n);
    case X_STEALTP: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<DQ,ba::no_cpu_load_saving,true>>(w,n); case X_STEALMQ: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL,ba::default_find_position<>,ba::default_save_cpu_load<>,true>>(w,n);
    case X_ASIO: return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(w,true,n); case X_MULTI: return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>(w,(size_t)3,n); case X_IO: return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<DQ>>(w,w+2,n);
    default: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(pool(X_TP,w,n),ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL>>((size_t)1,n),pool(X_ASIO,1,n)); } }
static size_t workers(int k,size_t w){ return k==X_SINGLE?1:k==X_COMPOSITE?w+2:w; }
typedef boost::thread::id Id; static std::string ids(Id i){ std::ostringstream o; o<<i; return o.str(); }
static std::atomic<int> serial_gen{0}; static int serial(){ static thread_local int s=++serial_gen; return s; } // never reused, unlike thread ids
struct Ex { int i; };
static SP random_pool(mon::Case& c,int& k,size_t& w,std::string const& n=""){ k=c.rng(X_COUNT); w=(size_t)c.rng.range(1,5); if(k==X_SINGLE) w=1; c.say("%s w=%zu",xn[k],w); return pool(k,w,n); }
// jobs, some of which block until the destructor
struct Load { std::atomic<bool> go{false}; std::atomic<int> in{0}; std::vector<std::future<void>> f; ~Load(){ go=true; for(auto&x:f) try{ x.get(); }catch(...){} }
  void add(SP p,int n,mon::Rng& r,int block){ for(int i=0;i<n;++i){ bool b=i<block; f.push_back(ba::post_future(p,[this,b]{ ++in; if(b) while(!go) mon::nap_us(20); else mon::jitter(); },"",(size_t)r(4))); } } };

SCENARIO(id_list,200,2000){ c.chaos(); long t0=mon::thread_count(); int k; size_t w; SP p=random_pool(c,k,w); std::vector<Id> v=p.thread_ids(); std::set<Id> s(v.begin(),v.end()); size_t n=workers(k,w);
  if(v.size()!=n) fail_s(K("id_count:")+xn[k],fmt("%zu thread ids, created with %zu threads",v.size(),n)); if(s.size()!=v.size()) fail_s(K("id_dup:")+xn[k],"thread id reported twice"); if(s.count(Id())||s.count(boost::this_thread::get_id())) fail_s(K("id_alien:")+xn[k],"not a worker thread");
  long t1=mon::thread_count(); if(t1-t0!=(long)n) fail_s(K("threads:")+xn[k],fmt("%ld threads started, created with %zu",t1-t0,n));
  int m=c.rng.range(1,60); std::mutex mx; std::map<Id,std::set<int>> seen; std::vector<std::future<void>> fu; std::atomic<int> bad{0}; bool io=k==X_IO; uint64_t sg=0;
  for(int i=0;i<m;++i) fu.push_back(ba::post_future(p,[&,io]{ Id me=boost::this_thread::get_id(); int sr=serial(); mon::ev(); if(io){ auto x=p.thread_ids(); if(std::find(x.begin(),x.end(),me)==x.end()) ++bad; if(x.size()>w+2||x.size()<w) ++bad; } else { auto x=p.thread_ids(); if(x!=v) ++bad; } { std::lock_guard<std::mutex> l(mx); seen[me].insert(sr); } mon::jitter(); },"",(size_t)c.rng(5)));
  for(auto&f:fu) f.get(); if(bad) fail_s(K("id_list:")+xn[k],"the list of ids changed, or does not have the thread of a running job, or has too many");
  for(auto&x:seen){ sg=mon::mix(sg+x.second.size()); if(!io){ if(!s.count(x.first)) fail_s(K("id_other:")+xn[k],"job ran in thread "+ids(x.first)+", which is not one of the reported"); if(x.second.size()!=1) fail_s(K("id_changed:")+xn[k],"worker thread replaced"); } }
  if(!io&&p.thread_ids()!=v) fail_s(K("id_stable:")+xn[k],"reported ids changed"); fu.clear(); p=SP(); if(!mon::wait_for([&]{ return mon::thread_count()<=t0; },10)) fail_s(K("id_left:")+xn[k],"threads left after the scheduler died"); c.sig(sg+(uint64_t)k); }

SCENARIO(all_threads,240,2400){ c.chaos(); int k; size_t w; SP p=random_pool(c,k,w); auto v=p.thread_ids(); std::set<Id> s(v.begin(),v.end()); size_t n=workers(k,w); bool io=k==X_IO; uint64_t sg=0;
  struct Call { std::mutex m; std::map<int,int> n; std::set<Id> id; int thr=0; }; int nc=c.rng.range(1,4), calls=c.rng.range(1,4); std::vector<std::unique_ptr<Call>> cs; for(int i=0;i<nc*calls;++i){ cs.emplace_back(new Call); cs.back()->thr=c.rng(5); } std::vector<std::set<Id>> fids((size_t)nc*calls);
  { Load ld; int block=c.rng(3)?0:c.rng.range(0,(int)n-1); ld.add(p,c.rng.range(0,80),c.rng,block);
  std::vector<std::thread> th; std::vector<std::vector<std::future<void>>> fus((size_t)(nc*calls)); 
  for(int a=0;a<nc;++a) th.emplace_back([&,a]{ SP q=p; for(int b=0;b<calls;++b){ int x=a*calls+b; Call* cl=cs[(size_t)x].get(); fus[(size_t)x]=q.execute_in_all_threads([cl]{ mon::ev(); mon::jitter(); { std::lock_guard<std::mutex> l(cl->m); ++cl->n[serial()]; cl->id.insert(boost::this_thread::get_id()); } if(cl->thr==1) throw Ex{1}; if(cl->thr==2) throw std::runtime_error("x"); if(cl->thr==3) throw boost::thread_interrupted(); }); mon::jitter(); } });
  for(auto&t:th) t.join(); if(block) ld.go=true;
  for(int x=0;x<nc*calls;++x){ Call& cl=*cs[(size_t)x]; if(fus[(size_t)x].size()!=n) fail_s(K("all_futures:")+xn[k],fmt("%zu futures for %zu threads",fus[(size_t)x].size(),n));
    for(auto&f:fus[(size_t)x]){ int out=0; if(f.wait_for(std::chrono::seconds(20))!=std::future_status::ready){ fail_s(K("all_stuck:")+xn[k],"future of a function for all threads never ready"); break; } try{ f.get(); }catch(Ex&){ out=1; }catch(boost::thread_interrupted&){ out=3; }catch(std::future_error&){ out=9; }catch(std::runtime_error&){ out=2; }catch(...){ out=8; } int want=cl.thr>3?0:cl.thr; if(out!=want) fail_s(K("all_outcome:")+xn[k],fmt("outcome %d of the function became %d",want,out)); } }
  } // joined: all jobs are over
  int extra=0; for(auto&pc:cs){ Call& cl=*pc; std::lock_guard<std::mutex> l(cl.m); int once=0; sg=mon::mix(sg+cl.n.size()); for(auto&q:cl.n){ if(q.second!=1) fail_s(K("all_twice:")+xn[k],fmt("executed %d times in one thread",q.second)); ++once; } if(!io&&once!=(int)n) fail_s(K("all_missing:")+xn[k],fmt("executed in %d of %zu threads",once,n)); if(io){ if(once<(int)n) fail_s(K("all_missing:io"),fmt("executed in %d of %zu threads",once,n)); extra+=once-(int)n; }
    for(auto&i:s) if(!cl.id.count(i)) fail_s(K("all_which:")+xn[k],"worker "+ids(i)+" did not execute it"); if(!io) for(auto&i:cl.id) if(!s.count(i)) fail_s(K("all_where:")+xn[k],"executed in another thread"); }
  mon::count("extra_threads",extra); std::vector<std::future<int>> fu; for(int i=0;i<10;++i) fu.push_back(ba::post_future(p,[i]{ return i; },"",(size_t)(i%3))); for(int i=0;i<10;++i) if(fu[(size_t)i].get()!=i) fail_s(K("all_after"),"jobs broken afterwards"); p=SP(); c.sig(sg+(uint64_t)k); }

// functions posted shortly before the end of the scheduler are still executed
SCENARIO(all_at_end,100,1000){ c.chaos(); int k; size_t w; size_t n; std::vector<std::future<void>> fu; std::atomic<int> ex{0}; struct Tk { std::atomic<int>* e; }; 
  { SP p=random_pool(c,k,w); n=workers(k,w); for(int i=0,j=c.rng(20);i<j;++i) p.post(ba::any_callable([]{ mon::jitter(); })); auto pe=&ex; fu=p.execute_in_all_threads([pe]{ mon::jitter(); ++*pe; }); }
  if(fu.size()!=n) fail_s(K("end_futures:")+xn[k],"number of futures"); for(auto&f:fu) try{ f.get(); }catch(std::exception& e){ fail_s(K("end_lost:")+xn[k],std::string("function for all threads lost by the shutdown: ")+e.what()); break; }
  if(ex<(int)n) fail_s(K("end_missing:")+xn[k],fmt("executed %d times by %zu threads",ex.load(),n)); mon::ev((long)n); c.sig((uint64_t)k*10+w); }

static std::string tname(){ char b[64]={0}; pthread_getname_np(pthread_self(),b,sizeof b); return b; }
SCENARIO(names,120,1200){ c.chaos(); int k; size_t w; std::string n0="n"+std::to_string(c.rng(1000))+std::string((size_t)c.rng(18),'x'); SP p=random_pool(c,k,w,n0); size_t n=workers(k,w); std::mutex m; 
  if(k!=X_COMPOSITE&&p.get_name()!=n0) fail_s(K("get_name:")+xn[k],"get_name is "+p.get_name());
  auto check=[&](std::string const& want,const char* w2){ struct G { std::mutex m; std::vector<std::string> got; }; auto sg=std::make_shared<G>(); auto fu=p.execute_in_all_threads([sg]{ std::lock_guard<std::mutex> l(sg->m); sg->got.push_back(tname()); }); for(auto&f:fu) f.get(); std::lock_guard<std::mutex> l(sg->m); auto& got=sg->got; for(auto&g:got){ mon::ev(); if(g!=want.substr(0,15)) fail_s(K(w2)+xn[k],"thread named '"+g+"' instead of '"+want+"'"); } if(got.size()<n) fail_s(K("name_count:")+xn[k],"not all threads"); };
  check(n0,"name_ctor:"); if(k==X_IO){ Load ld; ld.add(p,(int)w+6,c.rng,(int)w+6); mon::wait_for([&]{ return ld.in==(int)w+2; },5); std::atomic<int> bad{0}; ld.go=true; std::vector<std::future<void>> f; for(int i=0;i<20;++i) f.push_back(ba::post_future(p,[&]{ if(tname()!=n0.substr(0,15)) ++bad; mon::nap_us(50); })); for(auto&x:f) x.get(); if(bad) fail_s(K("name_temp"),"additional thread of the io pool without its name"); }
  else { std::string n1="m"+std::to_string(c.rng(1000)); p.set_name(n1); check(n1,"name_set:"); } c.sig((uint64_t)k*100+n0.size()*7+w); }

SCENARIO(binding,120,1200){ c.chaos(); int k; size_t w; SP p=random_pool(c,k,w); if(k==X_COMPOSITE||k==X_IO) { k=X_TP; p=pool(k,w,""); } auto v=p.thread_ids(); cpu_set_t me; CPU_ZERO(&me); pthread_getaffinity_np(pthread_self(),sizeof me,&me); unsigned hc=boost::thread::hardware_concurrency(); if(!hc) return;
  std::vector<std::tuple<unsigned,unsigned>> b; std::vector<int> want; int parts=k==X_SINGLE?1:c.rng.range(1,3); for(int i=0;i<parts;++i){ unsigned f=(unsigned)c.rng(12), n=(unsigned)c.rng.range(k==X_SINGLE?1:0,4); b.push_back(std::make_tuple(f,n)); for(unsigned j=0;j<n;++j) want.push_back((int)((f+j)%hc)); } want.resize(k==X_SINGLE?1:v.size(),-1);
  p.processor_bind(b); std::mutex m; std::map<Id,cpu_set_t> got; std::vector<std::future<int>> fu; auto fa=p.execute_in_all_threads([&]{ cpu_set_t s; CPU_ZERO(&s); pthread_getaffinity_np(pthread_self(),sizeof s,&s); std::lock_guard<std::mutex> l(m); got[boost::this_thread::get_id()]=s; }); for(int i=0;i<30;++i) fu.push_back(ba::post_future(p,[i]{ mon::jitter(); return i; },"",(size_t)(i%4)));
  for(auto&f:fa) f.get(); for(int i=0;i<30;++i) if(fu[(size_t)i].get()!=i) fail_s(K("bind_jobs"),"job lost"); std::lock_guard<std::mutex> l(m);
  for(size_t i=0;i<v.size();++i){ cpu_set_t s=got[v[i]]; mon::ev(); int wt=i<want.size()?want[i]:-1; if(wt>=0&&CPU_ISSET(wt,&me)){ if(CPU_COUNT(&s)!=1||!CPU_ISSET(wt,&s)) fail_s(K("bound:")+xn[k],fmt("thread %zu of %zu not bound to core %d",i,v.size(),wt)); } else if(wt<0&&!CPU_EQUAL(&s,&me)) fail_s(K("unbound:")+xn[k],fmt("thread %zu of %zu bound, not asked for",i,v.size())); }
  c.sig((uint64_t)k*1000+w*100+want.size()); }

template<template<class,class> class S,class P> static SP one(size_t w){ return ba::make_shared_scheduler_proxy<S<DQ,P>>(w); }
template<class P> static SP pol(int k,size_t w){ switch(k){ case 0: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<DQ,P>>(w); case 1: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<TL,ba::default_find_position<>,P>>(w); case 2: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<DQ,P,true>>(w); default: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL,ba::default_find_position<>,P,true>>(w); } }
SCENARIO(policies,120,1200){ c.chaos(); int k=c.rng(4),q=c.rng(6); size_t w=(size_t)c.rng.range(1,5); c.say("pool %d policy %d w=%zu",k,q,w);
  SP p=q==0?pol<ba::no_cpu_load_saving>(k,w):q==1?pol<ba::default_save_cpu_load<3,2000,500>>(k,w):q==2?pol<ba::some_save_cpu_load<1,4,1000,300>>(k,w):q==3?pol<ba::some_save_cpu_load<2,4,1000,300>>(k,w):q==4?pol<ba::some_save_cpu_load<3>>(k,w):pol<ba::some_save_cpu_load<7>>(k,w);
  if(p.thread_ids().size()!=w) fail_s(K("policy_ids"),"thread ids"); int r=c.rng.range(1,4); std::atomic<int> n{0}; int m=0; for(int i=0;i<r;++i){ std::vector<std::future<void>> f; int x=c.rng.range(1,30); m+=x; for(int j=0;j<x;++j) f.push_back(ba::post_future(p,[&n]{ mon::ev(); ++n; },"",(size_t)c.rng(5))); for(auto&y:f) if(y.wait_for(std::chrono::seconds(20))!=std::future_status::ready){ fail_s(K("policy_stuck"),"job not executed"); return; } mon::nap_us(c.rng(8)*1000); }
  if(n!=m) fail_s(K("policy_count"),"jobs lost or repeated"); c.sig((uint64_t)(k*100+q*10)+w); }

// schedulers created, used and destroyed within the threads of another one
SCENARIO(nested,100,1000){ c.chaos(); int k; size_t w; SP p=random_pool(c,k,w); std::vector<std::future<int>> fu; std::atomic<int> ran{0}; int n=c.rng.range(1,6),want=0; std::vector<int> in; long t0=mon::thread_count();
  for(int i=0;i<n;++i){ int k2=c.rng(X_COUNT); size_t w2=(size_t)c.rng.range(1,3); int m=c.rng.range(1,10); in.push_back(m); want+=m; fu.push_back(ba::post_future(p,[&ran,k2,w2,m]{ SP q=pool(k2,w2,""); auto v=q.thread_ids(); auto fa=q.execute_in_all_threads([]{}); std::vector<std::future<int>> f; for(int j=0;j<m;++j) f.push_back(ba::post_future(q,[&ran]{ ++ran; mon::jitter(); return 1; })); int s=0; for(auto&x:f) s+=x.get(); for(auto&x:fa) x.get(); if(std::find(v.begin(),v.end(),boost::this_thread::get_id())!=v.end()) s=-1000; q=SP(); return s; },"",(size_t)c.rng(3))); }
  for(int i=0;i<n;++i) if(fu[(size_t)i].get()!=in[(size_t)i]) fail_s(K("nested_result"),"wrong result of a nested scheduler"); if(ran!=want) fail_s(K("nested_count"),"jobs lost or repeated"); if(k!=X_IO&&!mon::wait_for([&]{ return mon::thread_count()<=t0; },10)) fail_s(K("nested_left"),"threads left"); mon::ev(want); c.sig((uint64_t)k*100+(uint64_t)want); }
