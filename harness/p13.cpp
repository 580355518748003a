// P13: continuations with a timeout, all_of and any_of: one call, consistent content, not before the timeout unless everything is there.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
using mon::Case; using mon::Token;
#if PART==2
typedef AL JOB;
#else
typedef AC JOB;
#endif
typedef ba::any_shared_scheduler_proxy<JOB> PX;
struct Ex { long v; Token t; explicit Ex(long x):v(x),t((int)x){} };
template<class J> using L=ba::lockfree_queue<J>; template<class J> using TL=ba::threadsafe_list<J>; template<class J> using D=ba::guarded_deque<J>;
static const char* pname[]={"single","tp","deque","mq","stealtp","stealmq","composite","asio"};
template<class J> ba::any_shared_scheduler_proxy<J> mk(int k,size_t w){ switch(k){ case 0: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<L<J>>>(); case 1: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<L<J>>>(w); case 2: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<D<J>>>(w);
  case 3: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<TL<J>>>(w); case 4: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<D<J>,ba::no_cpu_load_saving,true>>(w); case 5: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<L<J>,ba::default_find_position<>,ba::no_cpu_load_saving,true>>(w);
  case 6: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(mk<J>(1,w),ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL<J>>>((size_t)1));
  default: if constexpr(std::is_same<J,AC>::value) return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(w); else return mk<J>(1,w); } }
static std::string what(std::exception_ptr p){ try { std::rethrow_exception(p); } catch(Ex& e){ return "Ex"+std::to_string(e.v); } catch(std::exception& e){ return e.what(); } catch(...){ return "?"; } }

// ------------------------------------------------------------------ timed continuations over futures and tasks
struct Kid { long id=0; bool fails=false, blocked=false; int nap=0; std::atomic<bool> done{false}; std::atomic<int> runs{0}; long val()const{ return (long)(mon::mix(id)&0xffffff); } };
struct Watch { std::vector<std::unique_ptr<Kid>> kids; std::atomic<int> calls{0}; double start=0,end=0; long T=0; std::atomic<bool> release{false}; std::atomic<int> notready{0}; bool interruptible=false; std::atomic<bool> interrupted{false}; const char* form="?"; };
static long sub(Watch* w,Kid* k){ k->runs++; mon::ev(); if(k->blocked) mon::wait_for([&]{ return w->release.load(); },60); else if(k->nap) mon::nap_us(k->nap); if(k->fails) throw Ex(k->val()); return k->val(); }
struct SubTask : ba::continuation_task<long> { Watch* w; Kid* k; Token t; SubTask(Watch* a,Kid* b):ba::continuation_task<long>("sub"),w(a),k(b),t((int)b->id){} void operator()(){ auto r=this->this_task_result(); try { long v=sub(w,k); r.set_value(v); } catch(...){ r.set_exception(std::current_exception()); } k->done=true; } };
struct OnTimed { Watch* w; std::shared_ptr<Token> tok=std::make_shared<Token>(1);
  static void judge(Watch* w,std::vector<std::future<long>*> f,std::vector<bool> const& was){ double now=mon::now(); mon::ev(); if(w->calls) mon::fail_s(std::string("twice:")+w->form,"handler of a continuation called twice"); w->end=now; int miss=0; if(f.size()!=w->kids.size()) mon::fail_s(std::string("size:")+w->form,"wrong number of results");
    for(size_t i=0;i<f.size()&&i<w->kids.size();++i){ Kid* k=w->kids[i].get(); if(!f[i]->valid()){ mon::fail_s(std::string("invalid:")+w->form,"handler got an invalid future"); continue; } bool rdy=ba::is_ready(*f[i]); if(!rdy){ ++miss; if(was[i]) mon::fail_s(std::string("missing:")+w->form,mon::fmt("result of subtask %zu, which had finished, is not marked as available",i)); continue; }
      if(k->blocked) mon::fail_s(std::string("phantom:")+w->form,mon::fmt("unfinished subtask %zu has a result",i)); else try { long v=f[i]->get(); if(k->fails||v!=k->val()) mon::fail_s(std::string("value:")+w->form,mon::fmt("subtask %zu delivered %ld instead of %ld",i,v,k->val())); } catch(Ex& e){ if(!k->fails||e.v!=k->val()) mon::fail_s(std::string("value:")+w->form,"wrong exception delivered"); } catch(std::exception& e){ if(!(w->interruptible&&!k->runs)) mon::fail_s(std::string("value:")+w->form,std::string("unexpected exception ")+e.what()); } }
    if(miss&&!w->interrupted&&(now-w->start)*1000+1<w->T) mon::fail_s(std::string("too-early:")+w->form,mon::fmt("handler called %.2f ms after creation with %d results missing, timeout is %ld ms",(now-w->start)*1000,miss,w->T)); w->notready=miss; w->calls++; }
  std::vector<bool> was()const{ std::vector<bool> r; for(auto&k:w->kids) r.push_back(k->done); return r; }
  void operator()(std::tuple<std::future<long>> t)const{ auto a=was(); judge(w,{&std::get<0>(t)},a); }
  void operator()(std::tuple<std::future<long>,std::future<long>,std::future<long>> t)const{ auto a=was(); judge(w,{&std::get<0>(t),&std::get<1>(t),&std::get<2>(t)},a); }
  void operator()(std::vector<std::future<long>> v)const{ auto a=was(); std::vector<std::future<long>*> p; for(auto&f:v) p.push_back(&f); judge(w,p,a); }
  template<class E> void exp(std::vector<ba::expected<E>*> v)const{ mon::ev(); if(w->calls) mon::fail_s(std::string("twice:")+w->form,"handler called twice"); for(size_t i=0;i<v.size();++i){ Kid* k=w->kids[i].get(); if(!k->runs) mon::fail_s(std::string("early:")+w->form,"handler called before a subtask has run"); try { long x=v[i]->get(); if(k->fails||x!=k->val()) mon::fail_s(std::string("value:")+w->form,"wrong result"); } catch(Ex& e){ if(!k->fails||e.v!=k->val()) mon::fail_s(std::string("value:")+w->form,"wrong exception"); } } w->calls++; }
  void operator()(std::tuple<ba::expected<long>,ba::expected<long>,ba::expected<long>> t)const{ exp<long>({&std::get<0>(t),&std::get<1>(t),&std::get<2>(t)}); }
  void operator()(std::vector<ba::expected<long>> t)const{ std::vector<ba::expected<long>*> p; for(auto&e:t) p.push_back(&e); exp<long>(p); } };
enum TF { FUT1, FUT3, FSEQ, TASK3, CB3, CBSEQ, TFS }; static const char* tfn[]={"future","futures","future-vector","tasks","callback-tasks","callback-vector"};
template<class J> void create(TF f,bool dflt,Watch* w,std::vector<std::future<long>>* fu){ auto d=std::chrono::milliseconds(w->T); auto du=std::chrono::microseconds(w->T*1000); auto K=[&](int i){ return w->kids[i].get(); }; w->start=mon::now(); OnTimed o{w}; bool us=w->T%2;
  switch(f){ case FUT1: if(dflt) { if(us) ba::create_continuation_timeout(o,du,std::move((*fu)[0])); else ba::create_continuation_timeout(o,d,std::move((*fu)[0])); } else ba::create_continuation_job_timeout<J>(o,d,std::move((*fu)[0])); break;
   case FUT3: if(dflt) ba::create_continuation_timeout(o,du,std::move((*fu)[0]),std::move((*fu)[1]),std::move((*fu)[2])); else ba::create_continuation_job_timeout<J>(o,d,std::move((*fu)[0]),std::move((*fu)[1]),std::move((*fu)[2])); break;
   case FSEQ: if(dflt) ba::create_continuation_timeout(o,d,std::move(*fu)); else ba::create_continuation_job_timeout<J>(o,d,std::move(*fu)); break;
   case TASK3: if(dflt&&std::is_same<J,AC>::value) ba::create_continuation_timeout(o,du,SubTask(w,K(0)),SubTask(w,K(1)),SubTask(w,K(2))); else ba::create_continuation_job_timeout<J>(o,d,SubTask(w,K(0)),SubTask(w,K(1)),SubTask(w,K(2))); break;
   case CB3: ba::create_callback_continuation_job_timeout<J>(o,d,SubTask(w,K(0)),SubTask(w,K(1)),SubTask(w,K(2))); break;
   default: { std::vector<SubTask> v; for(auto&k:w->kids) v.emplace_back(w,k.get()); ba::create_callback_continuation_job_timeout<J>(o,d,std::move(v)); } } }
static void timed(Case& c){ c.chaos(); int a=c.rng(PART==2?7:8), b=c.rng(PART==2?7:8), wa=c.rng.range(1,3); int nw=c.rng.range(1,3); std::vector<std::unique_ptr<Watch>> ws; std::string txt; int blocked=0; bool intr=c.rng.p(20);
  for(int i=0;i<nw;++i){ auto w=std::make_unique<Watch>(); TF f=(TF)c.rng(TFS); int mode=c.rng(3); w->form=tfn[f]; int n=f==FUT1?1:(f==FSEQ||f==CBSEQ)?c.rng.range(f==FSEQ?0:1,8):3; if(f==TASK3||f>=CB3) mode=mode==1?2:mode; 
    w->T=mode==0?3600000:c.rng.range(1,25); if(intr&&f<CB3) { w->interruptible=true; w->T=3600000; mode=1; }
    for(int k=0;k<n;++k){ auto q=std::make_unique<Kid>(); q->id=i*100+k+1; q->fails=c.rng.p(20); q->nap=mode==2?c.rng((int)w->T*2000):c.rng(1500); if(mode==1&&f<TASK3&&(c.rng.p(50)||k==n-1)){ q->blocked=true; ++blocked; } w->kids.push_back(std::move(q)); }
    txt+=mon::fmt(" %s/%d/%ldms/%s",tfn[f],n,w->T,mode==0?"finish":mode==1?"blocked":"race"); ws.push_back(std::move(w)); }
  c.say("timed creator=%s*%d interrupt=%d:%s chaos=%d",pname[a],wa,intr,txt.c_str(),mon::S().chaos.load()); uint64_t sg=1;
  { PX A=mk<JOB>(a,wa); SP B=mk<AC>(b==0?1:b==6?3:b,blocked+2); std::vector<ba::any_interruptible> hs; std::vector<std::future<void>> created;
    for(auto&wp:ws){ Watch* w=wp.get(); TF f=(TF)(std::find_if(tfn,tfn+TFS,[&](const char* x){ return x==w->form; })-tfn); auto fu=std::make_shared<std::vector<std::future<long>>>(); bool fromprom=false;
      if(f<TASK3) for(auto&k:w->kids){ Kid* q=k.get(); auto p=std::make_shared<std::promise<long>>(); fu->push_back(p->get_future()); B.post([w,q,p]{ try { long v=sub(w,q); p->set_value(v); } catch(...){ p->set_exception(std::current_exception()); } q->done=true; }); }
      bool dflt=c.rng.p(50); (void)fromprom; auto go=[f,dflt,w,fu]{ create<JOB>(f,dflt,w,fu.get()); };
      if(w->interruptible) { auto x=ba::interruptible_post_future(A,go,"create"); created.push_back(std::move(std::get<0>(x))); hs.push_back(std::get<1>(x)); } else created.push_back(ba::post_future(A,go,"create")); if(c.rng.p(30)) mon::nap_us(c.rng(2000)); }
    for(auto&f:created) if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready) mon::fail_s("stuck","task creating a continuation never finished");
    if(intr){ mon::nap_us(c.rng(3000)); for(auto&w:ws) w->interrupted=true; for(auto&h:hs) h.interrupt(); }
    for(auto&w:ws) if(!mon::wait_for([&]{ return w->calls>=1; },30)) mon::fail_s(std::string("never:")+w->form,"handler of the continuation never called");
    for(auto&w:ws) w->release=true; if(c.rng.p(50)) mon::nap_us(500); if(c.rng.p(50)){ for(auto&w:ws) for(auto&k:w->kids) if(!w->interruptible&&!mon::wait_for([&]{ return k->runs>0; },30)) mon::fail_s("subtask","subtask never executed"); mon::nap_us(300); } 
    hs.clear(); }
  for(auto&w:ws){ if(w->calls!=1) mon::fail_s(std::string("calls:")+w->form,mon::fmt("handler called %d times",w->calls.load())); for(auto&k:w->kids) if(k->runs>1) mon::fail_s("rerun","subtask executed twice"); mon::count(w->notready?"timed out":"complete"); sg=mon::mix(sg^(w->notready*8+w->kids.size())); }
  ws.clear(); mon::expect_no_live("leak:timed"); c.sig(sg); }

// ------------------------------------------------------------------ all_of / any_of
struct Q { long id=0; int how=0; bool fails=false, blocked=false; int nap=0; std::atomic<int> runs{0}; std::atomic<bool> fin{false}; long val()const{ return (long)(mon::mix(id)&0xffffff); } };
struct Set { std::vector<std::unique_ptr<Q>> q; std::atomic<bool> release{false}; Q* operator[](int i){ return q[i].get(); } };
template<class R> struct QT : ba::continuation_task<R> { Q* q; Set* s; Token tok; QT(Q* a,Set* b):ba::continuation_task<R>("q"),q(a),s(b),tok((int)a->id){}
  void operator()(){ auto r=this->this_task_result(); mon::ev(); if(q->runs++) mon::fail_s("rerun","subtask executed twice"); if(q->blocked) mon::wait_for([this]{ return s->release.load(); },60); else if(q->nap) mon::nap_us(q->nap); q->fin=true; if(q->fails) r.set_exception(std::make_exception_ptr(Ex(q->val()))); else if constexpr(std::is_same<R,void>::value) r.set_value(); else if constexpr(std::is_same<R,long>::value) r.set_value(q->val()); else r.set_value(Token((int)q->val())); } };
template<class R> auto cc(Set& s,int i){ Q* q=s[i]; if(q->blocked||q->how==0) return ba::top_level_callback_continuation_job_force_post<R,JOB>(QT<R>(q,&s)); return ba::top_level_callback_continuation_job<R,JOB>(QT<R>(q,&s)); }
template<class E> void one(Set& s,int i,E& e,const char* k,bool fin=true){ if(fin&&!s[i]->fin) mon::fail_s(std::string("early:")+k,"delivered before a subtask finished"); if constexpr(std::is_same<E,long>::value){ if(e!=s[i]->val()) mon::fail_s(std::string("value:")+k,mon::fmt("result %d is %ld instead of %ld",i,e,s[i]->val())); } else if constexpr(std::is_same<E,Token>::value){ if(e.value()!=(int)s[i]->val()) mon::fail_s(std::string("value:")+k,mon::fmt("result %d is wrong",i)); } }
template<class T,size_t...I> void tup(Set& s,T& t,const char* k,std::index_sequence<I...>){ (one(s,I,std::get<I>(t),k),...); }
template<class...A> void judge_all(Set& s,std::tuple<A...>& t,const char* k){ tup(s,t,k,std::index_sequence_for<A...>()); }
template<class E> void judge_all(Set& s,std::vector<E>& v,const char* k){ if(v.size()!=s.q.size()) mon::fail_s(std::string("size:")+k,"wrong number of results"); else for(size_t i=0;i<v.size();++i) one(s,i,v[i],k); }
template<class...T> void judge_any(Set& s,ba::any_of_result<T...>& r,const char* k){ size_t i=r.index(); if(i>=s.q.size()){ mon::fail_s(std::string("index:")+k,mon::fmt("index %zu of %zu",i,s.q.size())); return; } Q* q=s[i]; if(!q->fin) mon::fail_s(std::string("early:")+k,"index of a subtask which has not finished"); if(q->fails) mon::fail_s(std::string("failed:")+k,"the result of a failing subtask is delivered");
  static const char ty[]={(std::is_same<T,void>::value?'v':std::is_same<T,long>::value?'l':'t')...}; if(ty[i]=='l'){ long* p=boost::relaxed_get<long>(&r.value()); if(!p) mon::fail_s(std::string("type:")+k,"wrong alternative"); else one(s,i,*p,k); } else if(ty[i]=='t'){ Token* p=boost::relaxed_get<Token>(&r.value()); if(!p) mon::fail_s(std::string("type:")+k,"wrong alternative"); else one(s,i,*p,k); } }
// judge the outcome of an all_of / any_of whether it comes through a future or an expected
template<class G> void outcome(Set& s,const char* k,bool any,G get){ bool fails=false,ok=false; for(auto&q:s.q){ fails|=q->fails; ok|=!q->fails; }
  try { get(); if(!any&&fails) mon::fail_s(std::string("success:")+k,"a subtask failed but no exception is reported"); if(any&&!ok) mon::fail_s(std::string("success:")+k,"all subtasks failed but no exception is reported"); }
  catch(Ex& e){ bool found=false; for(auto&q:s.q) found|=q->fails&&q->val()==e.v; if(any||!found) mon::fail_s(std::string("exception:")+k,"exception of no failing subtask delivered"); }
  catch(ba::combined_exception& e){ if(!any||ok) mon::fail_s(std::string("exception:")+k,"combined exception although a subtask succeeded"); auto& u=e.underlying_exceptions(); if(u.size()!=s.q.size()) mon::fail_s(std::string("exception:")+k,"wrong number of combined exceptions"); else for(size_t i=0;i<u.size();++i) if(!u[i]||what(u[i])!="Ex"+std::to_string(s[i]->val())) mon::fail_s(std::string("exception:")+k,mon::fmt("combined exception %zu is not the one thrown",i)); }
  catch(std::exception& e){ mon::fail_s(std::string("exception:")+k,std::string("unexpected exception ")+e.what()); } }
enum AF { ALL2, ALL3, ALL4, ALLT, ALLV, ALLVV, ANY2, ANY3, ANY4, AFS }; static const char* afn[]={"all2","all3","all4","alltuple","allvector","allvoids","any2","any3","any4"}; static const int afk[]={2,3,4,3,-1,-1,2,3,4};
template<class F> auto with(AF,F);
struct Side : ba::continuation_task<long> { std::atomic<bool>* fin; int nap; Token t; Side(std::atomic<bool>* f,int n):ba::continuation_task<long>("side"),fin(f),nap(n),t(5){} void operator()(){ auto r=this->this_task_result(); if(nap) mon::nap_us(nap); *fin=true; r.set_value(5); } };
// how the combination is used: directly as the result of a task; as a subtask of another continuation beside others; through interruptible posting
template<class MK,class JU> void use(Case& c,PX& pool,Set& s,const char* k,bool any,int how,MK make,JU judge,uint64_t& sg){ typedef decltype(make()) C; typedef typename C::return_type R; std::atomic<int> calls{0}; std::atomic<bool> sf{false}, sf2{false};
  if(how==0||how==2){ std::future<R> f; ba::any_interruptible h; if(how==0) f=ba::post_future(pool,[make]{ return make(); },"u"); else { auto x=ba::interruptible_post_future(pool,[make]{ return make(); },"u"); f=std::move(std::get<0>(x)); h=std::get<1>(x); }
    if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready) mon::fail_s(std::string("never:")+k,"combination never delivered"); else outcome(s,k,any,[&]{ R r=f.get(); judge(r); sg=mon::mix(sg+1); }); s.release=true; return; }
  int nap=c.rng(800), nap2=c.rng(3000); auto f=ba::post_future(pool,[&,make,nap,nap2]{ return ba::top_level_callback_continuation_job<long,JOB>(ba::make_top_level_lambda_continuation<long>([&,make,nap,nap2](ba::continuation_result<long> res){
      ba::create_callback_continuation_job<JOB>([&,res](std::tuple<ba::expected<long>,ba::expected<R>,ba::expected<long>> t){ mon::ev(); if(calls++) mon::fail_s(std::string("twice:")+k,"continuation around it called twice"); if(!sf||!sf2) mon::fail_s(std::string("early-parent:")+k,"continuation called before a task beside the combination finished"); outcome(s,k,any,[&]{ R& r=std::get<1>(t).get(); judge(r); sg=mon::mix(sg+1); }); res.set_value(9); },Side(&sf,nap),make(),Side(&sf2,nap2)); },"tl")); },"u");
  if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready) mon::fail_s(std::string("never:")+k,"continuation around it never called"); else try { f.get(); } catch(std::exception& e){ mon::fail_s(std::string("exception:")+k,e.what()); }
  s.release=true; mon::nap_us(c.rng(1500)); }
static void combine(Case& c){ c.chaos(); AF f=(AF)c.rng(AFS); bool any=f>=ANY2; int n=afk[f]>0?afk[f]:c.rng.range(0,12); int k=c.rng(PART==2?7:8), w=c.rng.range(1,4); Set s; int bl=0; int pf=c.rng.p(30)?0:c.rng.p(30)?100:40; bool canblock=any&&c.rng.p(50);
  for(int i=0;i<n;++i){ auto q=std::make_unique<Q>(); q->id=c.iter*50+i+1; q->how=c.rng(2); q->fails=c.rng.p(pf); q->nap=c.rng.p(50)?0:c.rng(1200); s.q.push_back(std::move(q)); }
  if(canblock){ int good=c.rng(n); s[good]->fails=false; for(int i=0;i<n;++i) if(i!=good&&c.rng.p(60)){ s[i]->blocked=true; ++bl; } if(bl) { if(k==0||k==6) k=1; w=bl+2; } }
  // an interruptible task executes its parts as posted, the same rules hold
  int how=c.rng(3); if(bl&&how==1) { w+=2; } c.say("combine %s pool=%s*%d n=%d failing=%d%% blocked=%d used=%s chaos=%d",afn[f],pname[k],w,n,pf,bl,how==0?"directly":how==1?"nested":"interruptible",mon::S().chaos.load()); mon::count(afn[f]); uint64_t sg=1; const char* key=afn[f]; Set* p=&s;
  { PX pool=mk<JOB>(k,w); auto ja=[&](auto& r){ judge_all(s,r,key); }; auto jy=[&](auto& r){ sg=mon::mix(sg^r.index()); judge_any(s,r,key); };
    switch(f){ case ALL2: use(c,pool,s,key,any,how,[p]{ return ba::all_of(cc<long>(*p,0),cc<Token>(*p,1)); },ja,sg); break;
      case ALL3: use(c,pool,s,key,any,how,[p]{ return ba::all_of(cc<void>(*p,0),cc<long>(*p,1),cc<void>(*p,2)); },ja,sg); break;
      case ALL4: use(c,pool,s,key,any,how,[p]{ return ba::all_of(cc<long>(*p,0),cc<long>(*p,1),cc<Token>(*p,2),cc<void>(*p,3)); },ja,sg); break;
      case ALLT: use(c,pool,s,key,any,how,[p]{ return ba::all_of(std::make_tuple(cc<Token>(*p,0),cc<long>(*p,1),cc<void>(*p,2))); },ja,sg); break;
      case ALLV: use(c,pool,s,key,any,how,[p,n]{ std::vector<decltype(cc<Token>(*p,0))> v; for(int i=0;i<n;++i) v.push_back(cc<Token>(*p,i)); return ba::all_of(std::move(v)); },ja,sg); break;
      case ALLVV: use(c,pool,s,key,any,how,[p,n]{ std::vector<decltype(cc<void>(*p,0))> v; for(int i=0;i<n;++i) v.push_back(cc<void>(*p,i)); return ba::all_of(std::move(v)); },ja,sg); break;
      case ANY2: use(c,pool,s,key,any,how,[p]{ return ba::any_of(cc<Token>(*p,0),cc<long>(*p,1)); },jy,sg); break;
      case ANY3: use(c,pool,s,key,any,how,[p]{ return ba::any_of(cc<long>(*p,0),cc<void>(*p,1),cc<long>(*p,2)); },jy,sg); break;
      default: use(c,pool,s,key,any,how,[p]{ return ba::any_of(cc<void>(*p,0),cc<Token>(*p,1),cc<Token>(*p,2),cc<long>(*p,3)); },jy,sg); } }
  for(auto&q:s.q){ if(q->runs!=1) mon::fail_s(std::string("runs:")+key,mon::fmt("subtask executed %d times",q->runs.load())); sg=mon::mix(sg^q->fails); } s.q.clear(); mon::expect_no_live("leak:combine"); c.sig(sg); }
#if PART==1
SCENARIO(timed_ac,500,3000){ timed(c); }
#elif PART==2
SCENARIO(timed_al,400,3000){ timed(c); }
SCENARIO(combine_al,500,3000){ combine(c); }
#else
SCENARIO(combine_ac,700,4000){ combine(c); }
#endif
