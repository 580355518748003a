// P12: random task trees built from every form of continuation; every on_done runs once, after all subtasks, with their results in place.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#if PART==1
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
typedef AC JOB;
#else
typedef AL JOB;
#endif
using mon::Case; using mon::Token; using mon::MToken; typedef ba::any_shared_scheduler_proxy<JOB> PX;
struct Ex { uint64_t v; Token t; explicit Ex(uint64_t x):v(x),t((int)(x&0xffff)){} };
enum Ty { LONG, TOK, VOID, MTOK };
enum Form { LEAF, V1, V2, V3, V5, SEQ_L, SEQ_T, SEQ_V, TUP2, TUP3, CC2, CC3, VCC, FUT2, FUT3, FSEQ, FLAT, FUT6, CC6, FORMS };
static const char* fname[]={"leaf","v1","v2","v3","v5","seqlong","seqtoken","seqvoid","tuple2","tuple3","cc2","cc3","seqcc","fut2","fut3","futseq","flat","fut6","cc6"};
enum LeafHow { PLAIN, LAMBDA, LAMBDA_THROW };
struct Spec { int id=0; Ty ty=LONG; bool fails=false; Form form=LEAF; int work=0; std::vector<std::unique_ptr<Spec>> kids; std::unique_ptr<Spec> next; std::atomic<int> runs{0}, dones{0}, fin{0};
  uint64_t value()const{ uint64_t h=mon::mix(id+17); for(auto&k:kids) h=mon::mix(h^(k->outcome()*31)); if(next) h=mon::mix(h^next->outcome()); return h&0x7fffffffffull; }
  uint64_t outcome()const{ if(fails) return 0xE000000000000000ull|value(); switch(ty){ case VOID: return 7; case TOK: case MTOK: return value()&0x3fffffff; default: return value(); } } };
typedef std::function<void(bool,uint64_t)> Res; // (failed, value)
static void mismatch(Spec* p,size_t i,uint64_t got){ mon::fail_s(std::string("result:")+fname[p->form],mon::fmt("subtask %zu of %zu in a %s continuation delivered %llx instead of %llx",i,p->kids.size(),fname[p->form],(unsigned long long)got,(unsigned long long)p->kids[i]->outcome())); }
template<class F> uint64_t guarded(F f){ try { return f(); } catch(Ex& e){ return 0xE000000000000000ull|e.v; } catch(std::exception& e){ return mon::hstr(e.what())|0xB000000000000000ull; } catch(...) { return 0xBAD0000000000000ull; } }
static uint64_t oc(ba::expected<long>& e){ return guarded([&]{ return (uint64_t)e.get(); }); }
static uint64_t oc(ba::expected<Token>& e){ return guarded([&]{ Token t=std::move(e.get()); return (uint64_t)t.value(); }); }
static uint64_t oc(ba::expected<MToken>& e){ return guarded([&]{ MToken t=std::move(e.get()); return (uint64_t)t.value(); }); }
static uint64_t oc(ba::expected<void>& e){ return guarded([&]{ e.get(); return (uint64_t)7; }); }
static bool notready=false;
template<class R> uint64_t oc(std::future<R>& f){ return guarded([&]{ if(f.wait_for(std::chrono::seconds(0))!=std::future_status::ready) return (uint64_t)0xC0FFEE; if constexpr(std::is_same<R,long>::value) return (uint64_t)f.get(); else if constexpr(std::is_same<R,void>::value) { f.get(); return (uint64_t)7; } else return (uint64_t)f.get().value(); }); }
// called at the top of every on_done with the outcomes received
static void done_check(Spec* s,std::vector<uint64_t> const& got){ mon::ev(); if(s->dones++) mon::fail_s(std::string("twice:")+fname[s->form],"on_done called twice");
  if(got.size()!=s->kids.size()) mon::fail_s(std::string("size:")+fname[s->form],mon::fmt("%zu results for %zu subtasks",got.size(),s->kids.size()));
  for(size_t i=0;i<got.size();++i){ if(s->kids[i]->fin!=1) mon::fail_s(std::string("early:")+fname[s->form],mon::fmt("on_done called although subtask %zu finished %d times",i,s->kids[i]->fin.load())); else if(got[i]!=s->kids[i]->outcome()) mismatch(s,i,got[i]); } }
struct OnDone { Spec* s; Res r; std::shared_ptr<Token> tok; OnDone(Spec* x,Res y):s(x),r(std::move(y)),tok(std::make_shared<Token>(x->id)){}
  template<size_t...I,class T> void tup(std::index_sequence<I...>,T& t)const{ done_check(s,std::vector<uint64_t>{oc(std::get<I>(t))...}); fin(); }
  void fin()const; // may continue with a further continuation
  template<class...A> void operator()(std::tuple<A...> t)const{ tup(std::index_sequence_for<A...>(),t); }
  template<class E> void operator()(std::vector<E> v)const{ std::vector<uint64_t> g; for(auto&e:v) g.push_back(oc(e)); done_check(s,g); fin(); } };
static void start(Spec* s){ mon::ev(); if(s->runs++) mon::fail_s(std::string("rerun:")+fname[s->form],"task executed twice"); mon::jitter(); if(s->work) mon::spin(s->work*100); }
void expand(Spec* s,Res r);
template<class R> struct Node : ba::continuation_task<R> { Spec* s; Token tok; explicit Node(Spec* x):ba::continuation_task<R>("n"+std::to_string(x->id%4)),s(x),tok(x->id){}
  void operator()(){ if(tok.value()!=s->id) mon::fail_s("task-object","task executed with another object's state"); auto res=this->this_task_result();
    expand(s,[res](bool bad,uint64_t v){ if(bad) res.set_exception(std::make_exception_ptr(Ex(v))); else if constexpr(std::is_same<R,void>::value) res.set_value(); else if constexpr(std::is_same<R,long>::value) res.set_value((long)v); else { R x((int)(v&0x3fffffff)); res.set_value(std::move(x)); } }); } };
void OnDone::fin()const{ mon::jitter(); Spec* q=s; Res rr=r; if(!s->next){ s->fin++; r(s->fails,s->value()); return; }
  ba::create_callback_continuation_job<JOB>([q,rr](std::tuple<ba::expected<long>> t){ uint64_t g=oc(std::get<0>(t)); if(q->next->fin!=1) mon::fail_s("early:chain","continuation called before its subtask finished"); else if(g!=q->next->outcome()) mon::fail_s("result:chain","wrong result of a second phase"); if(q->fin++) mon::fail_s("twice:chain","continuation called twice"); rr(q->fails,q->value()); },Node<long>(s->next.get())); }
struct LeafF { Spec* s; long operator()(){ start(s); s->fin++; if(s->fails) throw Ex(s->value()); return (long)s->value(); } };
template<class R> using CC=ba::detail::callback_continuation<R,JOB>;
template<class R> CC<R> cc(Spec* s){ return s->id%3==0?ba::top_level_callback_continuation_job_force_post<R,JOB>(Node<R>(s)):ba::top_level_callback_continuation_job<R,JOB>(Node<R>(s)); }
static Spec* K(Spec* s,int i){ return s->kids[i].get(); }
template<class R> static void seq(Spec* s,OnDone d){ std::vector<Node<R>> v; for(auto&k:s->kids) v.emplace_back(k.get()); ba::create_callback_continuation_job<JOB>(std::move(d),std::move(v)); }
void expand(Spec* s,Res r){ start(s); if(s->form==LEAF){ s->fin++; r(s->fails,s->value()); return; } OnDone d(s,std::move(r));
  typedef Node<long> NL; typedef Node<Token> NT; typedef Node<void> NV; typedef Node<MToken> NM;
  switch(s->form){
    case V1: ba::create_callback_continuation_job<JOB>(std::move(d),NL(K(s,0))); break;
    case V2: ba::create_callback_continuation_job<JOB>(std::move(d),NT(K(s,0)),NL(K(s,1))); break;
    case V3: ba::create_callback_continuation_job<JOB>(std::move(d),NM(K(s,0)),NV(K(s,1)),NT(K(s,2))); break;
    case V5: ba::create_callback_continuation_job<JOB>(std::move(d),NV(K(s,0)),NL(K(s,1)),NM(K(s,2)),NL(K(s,3)),NV(K(s,4))); break;
    case SEQ_L: seq<long>(s,std::move(d)); break; case SEQ_T: seq<Token>(s,std::move(d)); break; case SEQ_V: seq<void>(s,std::move(d)); break;
    case TUP2: ba::create_callback_continuation_job<JOB>(std::move(d),std::make_tuple(ba::expected<long>(),ba::expected<Token>()),std::make_tuple(NL(K(s,0)),NT(K(s,1)))); break;
    case TUP3: ba::create_callback_continuation_job<JOB>(std::move(d),std::make_tuple(ba::expected<void>(),ba::expected<Token>(),ba::expected<long>()),std::make_tuple(NV(K(s,0)),NT(K(s,1)),NL(K(s,2)))); break;
    case CC2: ba::create_callback_continuation_job<JOB>(std::move(d),cc<long>(K(s,0)),NT(K(s,1))); break;
    case CC3: ba::create_callback_continuation_job<JOB>(std::move(d),NL(K(s,0)),cc<Token>(K(s,1)),cc<void>(K(s,2))); break;
    case VCC: { std::vector<CC<long>> v; for(auto&k:s->kids) v.push_back(cc<long>(k.get())); ba::create_callback_continuation_job<JOB>(std::move(d),std::move(v)); break; }
    case FUT2: ba::create_continuation_job<JOB>(std::move(d),NL(K(s,0)),NT(K(s,1))); break;
    case FUT3: ba::create_continuation_job<JOB>(std::move(d),NV(K(s,0)),NL(K(s,1)),NM(K(s,2))); break;
    case FUT6: ba::create_continuation_job<JOB>(std::move(d),NL(K(s,0)),NV(K(s,1)),NT(K(s,2)),NL(K(s,3)),NM(K(s,4)),NL(K(s,5))); break;
    case CC6: ba::create_callback_continuation_job<JOB>(std::move(d),NL(K(s,0)),cc<Token>(K(s,1)),cc<void>(K(s,2)),NL(K(s,3)),cc<long>(K(s,4)),NV(K(s,5))); break;
    case FSEQ: { auto l=ba::get_thread_scheduler<JOB>().lock(); std::vector<std::future<long>> v; for(auto&k:s->kids){ Spec* q=k.get(); v.push_back(ba::post_future(l,[q]{ return ba::top_level_callback_continuation_job<long,JOB>(Node<long>(q)); },"fs")); } ba::create_continuation_job<JOB>(std::move(d),std::move(v)); break; }
    case FLAT: ba::create_callback_continuation_job<JOB>(std::move(d),ba::make_lambda_continuation_wrapper(LeafF{K(s,0)},"lw"),ba::make_lambda_continuation_wrapper(LeafF{K(s,1)},"lw2"),NT(K(s,2))); break;
    default: break; } }
static std::unique_ptr<Spec> gen(mon::Rng& r,int& id,int& budget,Ty ty,int depth,std::set<int>& used){ auto s=std::make_unique<Spec>(); s->id=id++; s->ty=ty; s->fails=r.p(12); s->work=r.p(30)?r(200):0; --budget; if(depth<=0||budget<=0||r.p(15)) return s;
  s->form=(Form)r.range(1,FORMS-1); used.insert(s->form); static const std::vector<Ty> sig[FORMS]={{},{LONG},{TOK,LONG},{MTOK,VOID,TOK},{VOID,LONG,MTOK,LONG,VOID},{},{},{},{LONG,TOK},{VOID,TOK,LONG},{LONG,TOK},{LONG,TOK,VOID},{},{LONG,TOK},{VOID,LONG,MTOK},{},{LONG,LONG,TOK},{LONG,VOID,TOK,LONG,MTOK,LONG},{LONG,TOK,VOID,LONG,LONG,VOID}};
  std::vector<Ty> k=sig[s->form]; if(k.empty()) k.assign(r.range(0,r.p(20)?40:6),s->form==SEQ_T?TOK:s->form==SEQ_V?VOID:LONG);
  for(size_t i=0;i<k.size();++i) s->kids.push_back(gen(r,id,budget,k[i],s->form==FLAT&&i<2?0:k.size()>10?0:depth-1,used)); if(r.p(20)) s->next=gen(r,id,budget,LONG,r.p(40)?depth-1:0,used); return s; }
static void all(Spec* s,std::function<void(Spec*)> f){ f(s); for(auto&k:s->kids) all(k.get(),f); if(s->next) all(s->next.get(),f); }

template<class J> using L=ba::lockfree_queue<J>; template<class J> using TL=ba::threadsafe_list<J>; template<class J> using D=ba::guarded_deque<J>;
static const char* pname[]={"single","tp","deque","container","mq","stealtp","stealmq","composite","asio","nested"};
template<class P> static P both(PX a,PX b){ return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<JOB>>(a,b); }
static PX mk(int k,int w){ switch(k){ case 0: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<L<JOB>>>(); case 1: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<L<JOB>>>((size_t)w); case 2: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<D<JOB>>>((size_t)w);
  case 3: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<JOB>>>((size_t)w,ba::any_queue_container_config<L<JOB>>(1),ba::any_queue_container_config<TL<JOB>>(2)); case 4: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<TL<JOB>>>((size_t)w);
  case 5: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<D<JOB>,ba::no_cpu_load_saving,true>>((size_t)w); case 6: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<L<JOB>,ba::default_find_position<>,ba::no_cpu_load_saving,true>>((size_t)w);
#if PART==1
  case 8: return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)w);
#endif
  default: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<JOB>>(mk(1,w),ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TL<JOB>>>((size_t)1)); } }
// what the user gets from a top task
struct Top { std::unique_ptr<Spec> s; std::atomic<int> called{0}; std::future<long> fl; std::future<Token> ft; std::future<void> fv; ba::any_interruptible h; int how=0; uint64_t got=0; };
#if PART==1
struct Sv : ba::trackable_servant<> { Sv(ba::any_weak_scheduler<> w,SP pool):ba::trackable_servant<>(w,pool){}
  void go(Top* t){ Spec* s=t->s.get(); switch(s->ty){ 
    case LONG: this->post_callback([s]{ return ba::top_level_callback_continuation<long>(Node<long>(s)); },[t](ba::expected<long> e){ t->got=oc(e); t->called++; }); break;
    case TOK: this->post_callback([s]{ return ba::top_level_callback_continuation<Token>(Node<Token>(s)); },[t](ba::expected<Token> e){ t->got=oc(e); t->called++; }); break;
    case MTOK: this->post_callback([s]{ return ba::top_level_callback_continuation<MToken>(Node<MToken>(s)); },[t](ba::expected<MToken> e){ t->got=oc(e); t->called++; }); break;
    default: this->post_callback([s]{ return ba::top_level_callback_continuation<void>(Node<void>(s)); },[t](ba::expected<void> e){ t->got=oc(e); t->called++; }); } } };
struct Px : ba::servant_proxy<Px,Sv> { template<class S> Px(S s,SP p):ba::servant_proxy<Px,Sv>(s,p){} BOOST_ASYNC_POST_MEMBER(go) };
#endif
template<class P> static void run_top(P& pool,Top& t){ Spec* s=t.s.get(); switch(t.how){
  case 0: switch(s->ty){ case LONG: t.fl=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job<long,JOB>(Node<long>(s)); },"top"); break; case TOK: t.ft=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job<Token,JOB>(Node<Token>(s)); },"top"); break; default: t.fv=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job<void,JOB>(Node<void>(s)); },"top"); } break;
  case 1: switch(s->ty){ case LONG: { auto x=ba::interruptible_post_future(pool,[s]{ return ba::top_level_callback_continuation_job<long,JOB>(Node<long>(s)); },"top"); t.fl=std::move(std::get<0>(x)); t.h=std::get<1>(x); break; } default: { auto x=ba::interruptible_post_future(pool,[s]{ return ba::top_level_callback_continuation_job<void,JOB>(Node<void>(s)); },"top"); t.fv=std::move(std::get<0>(x)); t.h=std::get<1>(x); } } break;
  case 2: t.fl=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job<long,JOB>(ba::make_top_level_lambda_continuation<long>([s](ba::continuation_result<long> r){ expand(s,[r](bool bad,uint64_t v){ if(bad) r.set_exception(std::make_exception_ptr(Ex(v))); else r.set_value((long)v); }); },"tl")); },"top"); break;
  case 3: t.fl=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job_force_post<long,JOB>(Node<long>(s)); },"top"); break;
  default: t.fl=ba::post_future(pool,[s]{ return ba::top_level_continuation_job<long,JOB>(Node<long>(s)); },"top"); } }
static void tree(Case& c){ c.chaos(); int k=c.rng(PART==1?9:8), w=c.rng.range(1,4); int n=c.rng.range(1,5); std::vector<std::unique_ptr<Top>> tops; std::set<int> used; int id=0,total=0;
  bool sv=PART==1&&c.rng.p(35);
  for(int i=0;i<n;++i){ auto t=std::make_unique<Top>(); int budget=c.rng.p(20)?300:40; t->how=sv?9:c.rng(5); Ty ty=t->how==9?(Ty)c.rng(4):t->how==0?(Ty)c.rng(3):t->how==1?(c.rng.p(50)?LONG:VOID):LONG; t->s=gen(c.rng,id,budget,ty,c.rng.range(1,6),used); tops.push_back(std::move(t)); }
  total=id; std::string fs; for(int f:used) fs+=std::string(fs.empty()?"":",")+fname[f]; c.say("tree pool=%s*%d tops=%d nodes=%d servant=%d forms=%s chaos=%d",pname[k],w,n,total,sv,fs.c_str(),mon::S().chaos.load());
  for(int f:used) mon::count((std::string("form ")+fname[f]).c_str());
  { PX pool=mk(k,w);
#if PART==1
    if(sv){ auto sch=mk_single(); Px px(sch,pool); for(auto&t:tops) px.go(t.get()); for(auto&t:tops) if(!mon::wait_for([&]{ return t->called>=1; },30)) mon::fail_s("no-callback","callback of a continuation never called"); }
    else
#endif
    { for(auto&t:tops) run_top(pool,*t);
      for(auto&t:tops){ auto ok=[&](auto& f){ if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready){ mon::fail_s(std::string("never:")+fname[t->s->form],"continuation never delivered its result"); return; } t->got=oc(f); t->called++; }; if(t->fl.valid()) ok(t->fl); else if(t->ft.valid()) ok(t->ft); else ok(t->fv); } } 
    tops[0]->h=ba::any_interruptible(); }
  uint64_t sg=1; for(auto&t:tops){ if(t->called!=1) mon::fail_s("callbacks",mon::fmt("callback called %d times",t->called.load())); if(t->called==1&&t->got!=t->s->outcome()) mon::fail_s(std::string("top:")+fname[t->s->form],mon::fmt("task tree returned %llx instead of %llx",(unsigned long long)t->got,(unsigned long long)t->s->outcome()));
    all(t->s.get(),[&](Spec* s){ if(s->runs!=1) mon::fail_s(std::string("runs:")+fname[s->form],mon::fmt("task executed %d times",s->runs.load())); if(s->form!=LEAF&&s->dones!=1) mon::fail_s(std::string("dones:")+fname[s->form],mon::fmt("on_done called %d times",s->dones.load())); sg=mon::mix(sg^(s->form*64+s->kids.size())*(s->fails?3:1)); }); }
  tops.clear(); mon::expect_no_live("leak:tree"); c.sig(sg); }
#if PART==1
SCENARIO(tree_ac,600,3000){ tree(c); }
#else
SCENARIO(tree_al,600,3000){ tree(c); }
#endif
// many trees at once over a small pool: countdowns compete
static void storm(Case& c){ c.chaos(); int k=c.rng(PART==1?9:8), w=c.rng.range(2,6), n=c.rng.range(20,80); std::vector<std::unique_ptr<Top>> tops; std::set<int> used; int id=0; for(int i=0;i<n;++i){ auto t=std::make_unique<Top>(); int b=12; t->how=c.rng.p(50)?0:4; t->s=gen(c.rng,id,b,LONG,2,used); tops.push_back(std::move(t)); }
  c.say("storm pool=%s*%d tops=%d nodes=%d chaos=%d",pname[k],w,n,id,mon::S().chaos.load());
  { PX pool=mk(k,w); for(auto&t:tops) run_top(pool,*t); for(auto&t:tops){ if(t->fl.wait_for(std::chrono::seconds(30))!=std::future_status::ready){ mon::fail_s(std::string("never:")+fname[t->s->form],"continuation never delivered its result"); continue; } uint64_t g=oc(t->fl); if(g!=t->s->outcome()) mon::fail_s("top:storm","wrong result"); } }
  uint64_t sg=1; for(auto&t:tops) all(t->s.get(),[&](Spec* s){ if(s->runs!=1||(s->form!=LEAF&&s->dones!=1)) mon::fail_s(std::string("runs:")+fname[s->form],mon::fmt("task executed %d times, on_done called %d times",s->runs.load(),s->dones.load())); sg=mon::mix(sg^s->form); }); tops.clear(); mon::expect_no_live("leak:storm"); c.sig(sg); }
#if PART==1
SCENARIO(storm_ac,60,400){ storm(c); }
#else
SCENARIO(storm_al,60,400){ storm(c); }
#endif
