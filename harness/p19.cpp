// P19: random compositions (then, if_then_else, if_/else_if/else_, invoke, parallel_invoke, all_of, parallel algorithms): each selected step once, in order, with the right input.
#include "anypool.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/if_then_else.hpp>
#include <boost/asynchronous/algorithm/invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#if PART==2
typedef AL JOB;
#else
typedef AC JOB;
#endif
using mon::Case; using mon::Token; typedef ba::any_shared_scheduler_proxy<JOB> PX; template<class R> using CC=ba::detail::callback_continuation<R,JOB>; typedef CC<long> C;
struct Ex { long v; Token t; explicit Ex(long x):v(x),t((int)(x&0xffff)){} };
struct Out { bool bad=false; long v=0; bool operator==(Out const& o)const{ return bad==o.bad&&v==o.v; } };
enum Kind { LEAF, THEN, THEN_VOID, THEN_CONT, THEN_TOKEN, ITE, IFE, IF_ELIF_ELSE, INVOKE, PINVOKE, PINVOKE_T, ALL, REDUCE, FORC, KINDS };
static const char* kn[]={"leaf","then","then-void","then-continuation","then-token","if_then_else","if-else","if-elseif-else","invoke","parallel_invoke","parallel_invoke_timeout","all_of","then-reduce","then-for"};
static const int nk[]={0,1,1,2,1,3,3,4,1,2,2,2,1,1}; // children: input first, then the branches
enum { SLOTS=6 };
struct Spec { int id=0; Kind k=LEAF; int bad=-1; /* slot which throws */ bool recover=false, post=false; int nap=0; std::vector<std::unique_ptr<Spec>> kids; std::atomic<int> act[SLOTS]; int exp[SLOTS]={}; Out out; bool reached=false; std::atomic<bool> failed_all{false};
  Spec(){ for(auto&a:act) a=0; } Spec* kid(int i){ return kids[i].get(); }
  long h(int slot,long in)const{ return (long)(mon::mix(id*8+slot)^mon::mix(in+1))&0xffffffff; } long exc(int slot)const{ return (long)(mon::mix(id*8+slot+77)&0xffff); } bool cond(int slot,long in)const{ return mon::mix(id*9+slot+in)&1; } };
// serial evaluation
static Out eval(Spec* s); static Out ev_(Spec* s){ auto step=[&](int slot,Out in,bool always,Out& r){ if(in.bad&&!always){ r=in; return false; } s->exp[slot]++; if(s->bad==slot){ r={true,s->exc(slot)}; return false; } r=in; return true; };
  Out a,r; if(s->k!=LEAF&&s->k!=PINVOKE&&s->k!=PINVOKE_T&&s->k!=ALL) a=eval(s->kid(0));
  switch(s->k){ case LEAF: s->exp[0]++; return s->bad==0?Out{true,s->exc(0)}:Out{false,s->h(0,0)};
    case THEN: if(!step(0,a,true,r)) return r; if(a.bad&&!s->recover) return a; return {false,s->h(0,a.bad?a.v+5:a.v)};
    case THEN_TOKEN: { Out x; bool t=!step(0,a,true,r); if(t) x=r; else if(a.bad&&!s->recover) x=a; else x={false,s->h(0,a.bad?a.v+5:a.v)&0xffff}; if(!step(1,x,true,r)) return r; if(x.bad) return x; return {false,s->h(1,x.v)}; }
    case THEN_VOID: { Out x; bool t=!step(0,a,true,r); if(t) x=r; else if(a.bad&&!s->recover) x=a; else x={false,7}; if(!step(1,x,true,r)) return r; if(x.bad) return x; return {false,s->h(1,7)}; }
    case THEN_CONT: if(!step(0,a,true,r)) return r; if(a.bad&&!s->recover) return a; return eval(s->kid(1));
    case ITE: { if(!step(0,a,false,r)) return r; bool c=s->cond(0,a.v); if(!step(c?1:2,a,false,r)) return r; return eval(s->kid(c?1:2)); }
    case IFE: { if(!step(0,a,false,r)) return r; bool c=s->cond(0,a.v); if(!step(c?1:2,a,false,r)) return r; return eval(s->kid(c?1:2)); }
    case IF_ELIF_ELSE: { if(!step(0,a,false,r)) return r; if(s->cond(0,a.v)){ if(!step(1,a,false,r)) return r; return eval(s->kid(1)); } if(!step(2,a,false,r)) return r; if(s->cond(2,a.v)){ if(!step(3,a,false,r)) return r; return eval(s->kid(2)); } if(!step(4,a,false,r)) return r; return eval(s->kid(3)); }
    case INVOKE: if(!step(0,a,false,r)) return r; return {false,s->h(0,a.v)};
    case PINVOKE: case PINVOKE_T: { long x=3; for(int i=0;i<4;++i){ s->exp[i]++; x=s->h(i,s->bad==i?x+s->exc(i):x+i); } s->exp[4]++; if(s->bad==4) return {true,s->exc(4)}; return {false,s->h(4,x)}; }
    case ALL: { Out b=eval(s->kid(0)), c=eval(s->kid(1)); if(b.bad||c.bad){ if(b.bad&&c.bad) s->failed_all=true; return b.bad?b:c; } s->exp[0]++; if(s->bad==0) return {true,s->exc(0)}; return {false,s->h(0,b.v*3+c.v)}; }
    case REDUCE: if(!step(0,a,true,r)) return r; if(a.bad&&!s->recover) return a; { long n=(s->id*7)%40+1, t=0; for(long i=0;i<n;++i) t+=(s->h(0,a.bad?a.v+5:a.v)&0xff)+i; return {false,t}; }
    case FORC: if(!step(0,a,true,r)) return r; if(a.bad&&!s->recover) return a; { long n=(s->id*5)%40, t=0; for(long i=0;i<n;++i) t+=2*((s->h(0,a.bad?a.v+5:a.v)&0xff)+i); s->exp[1]=(int)n; s->exp[2]++; return {false,t}; }
    default: return {}; } }
static Out eval(Spec* s){ s->reached=true; return s->out=ev_(s); }
// with two failing parts of an all_of either exception may come out, so results which depend on it are not compared
static bool loose(Spec* s){ if(s->failed_all) return true; for(auto&k:s->kids) if(k->reached&&loose(k.get())) return true; return false; }
static bool complete(Spec* s){ if(!s->reached) return true; for(int i=0;i<SLOTS;++i) if(s->act[i]!=s->exp[i]) return false; if(s->k==ALL&&(s->kid(0)->out.bad||s->kid(1)->out.bad)) return true; /* fails with the first failure, the other part goes on */ for(auto&k:s->kids) if(!complete(k.get())) return false; return true; }
static void on(Spec* s,int slot){ mon::ev(); s->act[slot]++; mon::jitter(); if(s->nap) mon::nap_us(s->nap); }
static void thr(Spec* s,int slot){ if(s->bad==slot) throw Ex(s->exc(slot)); }
static void fed(Spec* s,Spec* from,Out const& got){ if(!(got==from->out)) mon::fail_s(std::string("input:")+kn[s->k],mon::fmt("step got %d:%lx from a %s instead of %d:%lx",got.bad,got.v,kn[from->k],from->out.bad,from->out.v)); if(!complete(from)) mon::fail_s(std::string("order:")+kn[s->k],mon::fmt("step executed before the %s it depends on has finished",kn[from->k])); }
template<class E> Out un(E& e){ try { if constexpr(std::is_same<E,ba::expected<void>>::value){ e.get(); return {false,7}; } else if constexpr(std::is_same<E,ba::expected<Token>>::value) return {false,e.get().value()}; else return {false,(long)e.get()}; } catch(Ex& x){ return {true,x.v}; } catch(std::exception& x){ mon::fail_s("foreign-exception",x.what()); return {true,-1}; } }
struct Leaf : ba::continuation_task<long> { Spec* s; Token t; Leaf(Spec* x):ba::continuation_task<long>("leaf"),s(x),t(x->id){} void operator()(){ auto r=this->this_task_result(); on(s,0); if(s->bad==0) r.set_exception(std::make_exception_ptr(Ex(s->exc(0)))); else r.set_value(s->h(0,0)); } };
struct PLeaf : ba::continuation_task<long> { Spec* s; int slot; PLeaf(Spec* x,int i):ba::continuation_task<long>("pleaf"),s(x),slot(i){} void operator()(){ auto r=this->this_task_result(); on(s,slot); if(s->bad==slot) r.set_exception(std::make_exception_ptr(Ex(s->exc(slot)))); else r.set_value(slot); } };
static C build(Spec* s);
static long in1(Spec* s,ba::expected<long> e,int slot){ on(s,slot); Out o=un(e); fed(s,s->kid(0),o); thr(s,slot); if(o.bad&&!s->recover) throw Ex(o.v); return o.bad?o.v+5:o.v; }
static bool cnd(Spec* s,long v,int slot){ on(s,slot); fed(s,s->kid(0),{false,v}); thr(s,slot); return s->cond(slot,v); }
static C branch(Spec* s,long v,int slot,int kid){ on(s,slot); fed(s,s->kid(0),{false,v}); thr(s,slot); return build(s->kid(kid)); }
static C build_(Spec* s){ Token t(s->id); switch(s->k){
  case LEAF: return s->post?ba::top_level_callback_continuation_job_force_post<long,JOB>(Leaf(s)):ba::top_level_callback_continuation_job<long,JOB>(Leaf(s));
  case THEN: return ba::then(build(s->kid(0)),[s,t](ba::expected<long> e){ t.value(); return s->h(0,in1(s,std::move(e),0)); },"then");
  case THEN_TOKEN: return ba::then(ba::then(build(s->kid(0)),[s](ba::expected<long> e){ return Token((int)(s->h(0,in1(s,std::move(e),0))&0xffff)); }),[s,t](ba::expected<Token> e){ on(s,1); Out o=un(e); thr(s,1); if(o.bad) throw Ex(o.v); return s->h(1,o.v); });
  case THEN_VOID: return ba::then_job<JOB>(ba::then(build(s->kid(0)),[s,t](ba::expected<long> e){ in1(s,std::move(e),0); }),[s](ba::expected<void> e){ on(s,1); Out o=un(e); thr(s,1); if(o.bad) throw Ex(o.v); return s->h(1,7); });
  case THEN_CONT: return ba::then(build(s->kid(0)),[s,t](ba::expected<long> e){ in1(s,std::move(e),0); return build(s->kid(1)); });
  case ITE: { auto i=[s](long v){ return cnd(s,v,0); }; auto a=[s,t](long v){ return branch(s,v,1,1); }; auto b=[s](long v){ return branch(s,v,2,2); }; return ba::if_then_else<decltype(i),decltype(a),decltype(b),JOB>(i,a,b,"ite")(build(s->kid(0))); }
  case IFE: { auto i=[s](long v){ return cnd(s,v,0); }; auto a=[s,t](long v){ return branch(s,v,1,1); }; auto b=[s](long v){ return branch(s,v,2,2); }; auto x=ba::if_(build(s->kid(0)),i,a,"if"); return ba::else_<decltype(x),decltype(b),JOB>(std::move(x),b,"else"); }
  case IF_ELIF_ELSE: { auto i=[s](long v){ return cnd(s,v,0); }; auto a=[s,t](long v){ return branch(s,v,1,1); }; auto i2=[s](long v){ return cnd(s,v,2); }; auto b=[s](long v){ return branch(s,v,3,2); }; auto e=[s](long v){ return branch(s,v,4,3); }; auto x=ba::if_(build(s->kid(0)),i,a,"if"); auto y=ba::else_if<decltype(x),decltype(i2),decltype(b),JOB>(std::move(x),i2,b,"elseif"); return ba::else_<decltype(y),decltype(e),JOB>(std::move(y),e,"else"); }
  case INVOKE: return ba::invoke(build(s->kid(0)),[s,t](long v){ on(s,0); fed(s,s->kid(0),{false,v}); thr(s,0); return s->h(0,v); },"invoke",0);
  case PINVOKE: case PINVOKE_T: { auto f0=[s,t]{ on(s,0); thr(s,0); return Token(0); }; auto f1=[s]{ on(s,1); thr(s,1); }; auto f3=[s,t]{ on(s,3); thr(s,3); return 3L; };
     auto done=[s](auto e){ on(s,4); auto r=std::move(e.get()); Out o[4]={un(std::get<0>(r)),un(std::get<1>(r)),un(std::get<2>(r)),un(std::get<3>(r))}; long x=3; for(int i=0;i<4;++i){ if(s->act[i]!=1) mon::fail_s("order:parallel_invoke","result delivered before a task was executed"); if(o[i].bad!=(s->bad==i)||o[i].v!=(s->bad==i?s->exc(i):i==1?7:i)) mon::fail_s("result:parallel_invoke",mon::fmt("result %d is %d:%ld",i,o[i].bad,o[i].v)); x=s->h(i,o[i].bad?x+o[i].v:x+i); } thr(s,4); return s->h(4,x); };
     if(s->k==PINVOKE) return ba::then(ba::parallel_invoke<JOB>(ba::to_continuation_task(f0),ba::to_continuation_task(f1),PLeaf(s,2),ba::to_continuation_task(f3)),done); return ba::then(ba::parallel_invoke_timeout<JOB>(std::chrono::milliseconds(3600000),ba::to_continuation_task(f0,"a"),ba::to_continuation_task(f1,"b"),PLeaf(s,2),ba::to_continuation_task(f3,"c")),done); }
  case ALL: return ba::then(ba::all_of(build(s->kid(0)),build(s->kid(1))),[s,t](auto e){ if(e.has_exception()) e.get(); on(s,0); auto r=std::move(e.get()); fed(s,s->kid(0),{false,std::get<0>(r)}); fed(s,s->kid(1),{false,std::get<1>(r)}); thr(s,0); return s->h(0,std::get<0>(r)*3+std::get<1>(r)); });
  case REDUCE: return ba::parallel_reduce(ba::then(build(s->kid(0)),[s](ba::expected<long> e){ long v=s->h(0,in1(s,std::move(e),0))&0xff; std::vector<long> r((s->id*7)%40+1); for(size_t i=0;i<r.size();++i) r[i]=v+(long)i; return r; }),[](long a,long b){ return a+b; },s->id%9+1,"r",0);
  default: return ba::then(ba::parallel_for(ba::then(build(s->kid(0)),[s](ba::expected<long> e){ long v=s->h(0,in1(s,std::move(e),0))&0xff; std::vector<long> r((s->id*5)%40); for(size_t i=0;i<r.size();++i) r[i]=v+(long)i; return r; }),[s,t](long& x){ s->act[1]++; x*=2; },s->id%9+1,"f",0),[s](ba::expected<std::vector<long>> e){ if(e.has_exception()) e.get(); on(s,2); long t=0; for(long x:e.get()) t+=x; return t; }); } }
static C build(Spec* s){ if(!s->reached) mon::fail_s("branch","a branch which is not selected is executed"); return build_(s); }
static std::unique_ptr<Spec> gen(mon::Rng& r,int& id,int& budget,int depth,std::set<int>& used){ auto s=std::make_unique<Spec>(); s->id=++id; --budget; s->recover=r.p(50); s->post=r.p(50); s->nap=r.p(8)?r(300):0; if(depth>0&&budget>0&&!r.p(10)) s->k=(Kind)r.range(1,KINDS-1); if(r.p(12)) s->bad=r(s->k==LEAF?1:s->k>=PINVOKE&&s->k<=PINVOKE_T?5:s->k==IF_ELIF_ELSE?5:s->k==ITE||s->k==IFE?3:s->k==THEN_VOID||s->k==THEN_TOKEN?2:1); used.insert(s->k); for(int i=0;i<nk[s->k]&&s->k!=PINVOKE&&s->k!=PINVOKE_T;++i) s->kids.push_back(gen(r,id,budget,depth-1,used)); return s; }
static void all(Spec* s,std::function<void(Spec*)> f){ f(s); for(auto&k:s->kids) all(k.get(),f); }
struct Top { std::unique_ptr<Spec> s; Out got; std::atomic<int> calls{0}; std::future<long> f; ba::any_interruptible h; int how=0; };
#if PART==1
struct Sv : ba::trackable_servant<> { Sv(ba::any_weak_scheduler<> w,SP pool):ba::trackable_servant<>(w,pool){} void go(Top* t){ Spec* s=t->s.get(); this->post_callback([s]{ return build(s); },[t](ba::expected<long> e){ t->got=un(e); t->calls++; }); } };
struct Px : ba::servant_proxy<Px,Sv> { template<class S> Px(S s,SP p):ba::servant_proxy<Px,Sv>(s,p){} BOOST_ASYNC_POST_MEMBER(go) };
#endif
static void compose(Case& c){ c.chaos(); int k=c.rng(pool_kinds<JOB>()), w=c.rng.range(1,4), n=c.rng.range(1,4); std::vector<std::unique_ptr<Top>> tops; std::set<int> used; int id=0; bool sv=PART==1&&c.rng.p(30);
  for(int i=0;i<n;++i){ for(;;){ auto t=std::make_unique<Top>(); int b=c.rng.p(15)?80:16; t->how=sv?9:c.rng(4); std::set<int> u; t->s=gen(c.rng,id,b,c.rng.range(1,5),u); eval(t->s.get()); if(loose(t->s.get())) continue; used.insert(u.begin(),u.end()); tops.push_back(std::move(t)); break; } }
  std::string fs; for(int f:used){ fs+=std::string(fs.empty()?"":",")+kn[f]; mon::count(kn[f]); } c.say("compose pool=%s*%d tops=%d steps=%d servant=%d kinds=%s chaos=%d",pool_name[k],w,n,id,sv,fs.c_str(),mon::S().chaos.load()); uint64_t sg=1;
  { PX pool=any_pool<JOB>(k,w);
#if PART==1
    if(sv){ auto sch=mk_single(); Px px(sch,pool); for(auto&t:tops) px.go(t.get()); for(auto&t:tops) if(!mon::wait_for([&]{ return t->calls>=1; },30)) mon::fail_s(std::string("never:")+kn[t->s->k],"composed task never called back"); } else
#endif
    { for(auto&t:tops){ Spec* s=t->s.get(); switch(t->how){ case 0: t->f=ba::post_future(pool,[s]{ return build(s); },"c"); break; case 1: { auto x=ba::interruptible_post_future(pool,[s]{ return build(s); },"c"); t->f=std::move(std::get<0>(x)); t->h=std::get<1>(x); break; }
        default: t->f=ba::post_future(pool,[s]{ return ba::top_level_callback_continuation_job<long,JOB>(ba::make_top_level_lambda_continuation<long>([s](ba::continuation_result<long> r){ ba::create_callback_continuation_job<JOB>([r,s](std::tuple<ba::expected<long>,ba::expected<long>> t){ Out o=un(std::get<0>(t)); if(un(std::get<1>(t)).v!=4) mon::fail_s("nested","wrong result beside a composed task"); if(o.bad) r.set_exception(std::make_exception_ptr(Ex(o.v))); else r.set_value(o.v); },build(s),ba::make_lambda_continuation_wrapper([]{ return 4L; },"l")); },"tl")); },"c"); } }
      for(auto&t:tops){ if(t->f.wait_for(std::chrono::seconds(30))!=std::future_status::ready) mon::fail_s(std::string("never:")+kn[t->s->k],"composed task never finished"); else { t->got=un(t->f); t->calls++; } t->h=ba::any_interruptible(); } }
    mon::wait_for([&]{ bool ok=true; for(auto&t:tops) all(t->s.get(),[&](Spec* s){ for(int i=0;i<SLOTS;++i) ok&=s->act[i]>=(s->reached?s->exp[i]:0); }); return ok; },10); }
  for(auto&t:tops){ if(t->calls!=1) mon::fail_s("calls",mon::fmt("composed task finished %d times",t->calls.load())); else if(!(t->got==t->s->out)) mon::fail_s(std::string("result:")+kn[t->s->k],mon::fmt("composed task delivered %d:%lx instead of %d:%lx",t->got.bad,t->got.v,t->s->out.bad,t->s->out.v));
    all(t->s.get(),[&](Spec* s){ for(int i=0;i<SLOTS;++i){ int e=s->reached?s->exp[i]:0; if(s->act[i]!=e) mon::fail_s(std::string("steps:")+kn[s->k],mon::fmt("step %d executed %d times instead of %d",i,s->act[i].load(),e)); } sg=mon::mix(sg^(s->k*3+s->reached)*(s->out.bad?5:1)); }); }
  tops.clear(); mon::expect_no_live("leak:compose"); c.sig(sg); }
#if PART==1
SCENARIO(compose_ac,700,10000){ compose(c); }
#else
SCENARIO(compose_al,600,10000){ compose(c); }
#endif
