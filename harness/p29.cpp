// P29: exact lifetimes of elements, tasks, callbacks and results in algorithms, also when user code throws. Oracles: Token accounting (constructed once,
// destroyed once, not used after destruction or move), AddressSanitizer/LeakSanitizer, UndefinedBehaviorSanitizer.
#include "pools.hpp"
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
using mon::Case; using mon::Rng;
namespace {
struct Boom { int x; };
std::atomic<long> g_fuse{-1};             // counts down at every element operation of the armed kind; throws at 0
std::atomic<int> g_kind{0};
void fuse(int k){ if(g_kind.load(std::memory_order_relaxed)==k&&g_fuse.load(std::memory_order_relaxed)>=0&&g_fuse.fetch_sub(1)==0) throw Boom{k}; }
// kinds: 1 functor/comparison, 2 copy, 3 default construction
struct El { mon::Token t; El():t((fuse(3),0)){} explicit El(int i):t(i){} El(El const& o):t((fuse(2),o.t)){} El(El&& o) noexcept=default; El& operator=(El const& o){ fuse(2); t=o.t; return *this; } El& operator=(El&&) noexcept=default; int v() const { return t.value(); } bool operator==(El const& o)const{ return v()==o.v(); } };
struct Mo { mon::MToken t; Mo(){ fuse(3); } explicit Mo(int i):t(i){} Mo(Mo&&) noexcept=default; Mo& operator=(Mo&&) noexcept=default; int v() const { return t.value(); } };
// functors own a token as well: they are copied into every subtask and must be alive when called
struct Lt { mon::Token k{5}; template<class A> bool operator()(A const& a,A const& b)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()<b.v(); } };
struct LtE { mon::Token k{5}; bool operator()(El const& a,El const& b)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()<b.v(); } };
struct LtM { mon::Token k{5}; bool operator()(Mo const& a,Mo const& b)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()<b.v(); } };
struct Pr { mon::Token k{5}; bool operator()(El const& a)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()%2==0; } };
struct Pm { mon::Token k{5}; bool operator()(Mo const& a)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()%2==0; } };
struct Ap { mon::Token k{5}; void operator()(El const& a)const{ (void)k.value(); fuse(1); mon::ev(); (void)a.v(); } void merge(Ap const& o){ (void)o.k.value(); (void)k.value(); } };
struct Am { mon::Token k{5}; void operator()(Mo const& a)const{ (void)k.value(); fuse(1); mon::ev(); (void)a.v(); } };
struct Tr { mon::Token k{5}; El operator()(El const& a)const{ (void)k.value(); fuse(1); mon::ev(); return El(a.v()+1); } };
struct Ad { mon::Token k{5}; El operator()(El const& a,El const& b)const{ (void)k.value(); fuse(1); mon::ev(); return El(a.v()+b.v()); } };
struct Eq { mon::Token k{5}; bool operator()(El const& a,El const& b)const{ (void)k.value(); fuse(1); mon::ev(); return a.v()==b.v(); } };
struct Ge { mon::Token k{5}; El operator()()const{ (void)k.value(); fuse(1); mon::ev(); return El(3); } };
struct Thrown { bool set=false; };
template<class F> bool fin(F& f,const char* w,int kind,long armed){ if(f.wait_for(std::chrono::seconds(30))!=std::future_status::ready){ mon::fail_s(std::string("crash:hang-")+w,"operation never completed"); return false; }
  try{ f.get(); return true; }catch(Boom& b){ if(!kind||b.x!=kind) mon::fail_s(std::string("crash:exception-")+w,"exception out of nowhere"); return false; } catch(std::exception& e){ mon::fail_s(std::string("crash:exception-")+w,std::string("another exception than the one thrown: ")+e.what()); return false; } }
SP mkp(Rng& r){ size_t w=r.range(1,4); return r.p(60)?mk_tp((int)w):SP(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>(w)); }

const char* aname[]={"for","for_each","reduce","sort","stable_sort","sort_inplace","quicksort","partial_sort","nth_element","merge","partition","stable_partition","unique","reverse","copy","copy_if","move","fill","generate","swap_ranges","transform","find_all","for-moved","sort-moved","transform-moved","reverse-moveonly","partition-moveonly","for-moveonly"};
void algos(Case& c,bool thr){ c.chaos(); int a=c.rng(28), n=c.rng.range(0,c.rng.p(15)?600:80); long cut=c.rng.range(1,c.rng.p(50)?10:60); int kind=thr?c.rng.range(1,3):0; long armed=kind==3?c.rng(n+2):kind==2?c.rng(2*n+4):c.rng(3*n+4); if(kind==2&&a!=14&&a!=15&&a!=11&&a!=21) kind=1; if(kind==3&&a!=3&&a!=4&&a!=23) kind=1; if(thr&&c.rng.p(15)){ a=3+c.rng(2); kind=3; armed=c.rng(n+2); }
  c.say("%s n=%d cutoff=%ld throwing=%d at %ld chaos=%d",aname[a],n,cut,kind,kind?armed:-1,mon::S().chaos.load()); c.sig(mon::mix(a*1000+n)+cut*7+kind*131+(kind?armed:0));
  { SP p=mkp(c.rng); g_kind=0; g_fuse=-1; auto v=std::make_unique<std::vector<El>>(),o=std::make_unique<std::vector<El>>(); auto mv=std::make_unique<std::vector<Mo>>(); for(int i=0;i<n;++i){ v->emplace_back((int)(c.rng.next()%(n+1))); o->emplace_back(i); if(a>=25) mv->emplace_back((int)(c.rng.next()%(n+1))); } std::vector<int> before,after; for(auto& x:*v) before.push_back(x.v()); if(a>=25){ before.clear(); for(auto& x:*mv) before.push_back(x.v()); }
    std::vector<El> srt; if(a==9){ LtE l; std::sort(v->begin(),v->end(),l); std::sort(o->begin(),o->end(),l); srt.resize(2*n); } if(a==7||a==8){ } auto* V=v.get(); auto* O=o.get(); auto* S=&srt; auto* M=mv.get(); g_fuse=armed; g_kind=kind; bool ok=false; uint32_t th=4;
    #define GO(...) { auto f=ba::post_future(p,[=]() mutable { return __VA_ARGS__; },"x",0); ok=fin(f,aname[a],kind,armed); } break;
    int mid=n?c.rng(n+1):0;
    switch(a){ case 0: GO(ba::parallel_for(V->begin(),V->end(),Ap(),cut)) case 1: GO(ba::parallel_for_each(V->begin(),V->end(),Ap(),cut)) case 2: if(!n) break; GO(ba::parallel_reduce(V->begin(),V->end(),Ad(),cut)) case 3: GO(ba::parallel_sort(V->begin(),V->end(),LtE(),cut)) case 4: GO(ba::parallel_stable_sort(V->begin(),V->end(),LtE(),cut)) case 5: GO(ba::parallel_sort_inplace(V->begin(),V->end(),LtE(),cut)) case 6: GO(ba::parallel_quicksort(V->begin(),V->end(),LtE(),cut,th))
      case 7: GO(ba::parallel_partial_sort(V->begin(),V->begin()+mid,V->end(),LtE(),cut,th)) case 8: if(mid==n) break; GO(ba::parallel_nth_element(V->begin(),V->begin()+mid,V->end(),LtE(),cut,th)) case 9: GO(ba::parallel_merge(V->begin(),V->end(),O->begin(),O->end(),S->begin(),LtE(),cut)) case 10: GO(ba::parallel_partition(V->begin(),V->end(),Pr(),th)) case 11: GO(ba::parallel_stable_partition(V->begin(),V->end(),O->begin(),Pr(),cut)) case 12: GO(ba::parallel_unique(V->begin(),V->end(),Eq(),cut)) case 13: GO(ba::parallel_reverse(V->begin(),V->end(),cut))
      case 14: GO(ba::parallel_copy(V->begin(),V->end(),O->begin(),cut)) case 15: GO(ba::parallel_copy_if(V->begin(),V->end(),O->begin(),Pr(),cut)) case 16: GO(ba::parallel_move(V->begin(),V->end(),O->begin(),cut)) case 17: { El val(3); GO(ba::parallel_fill(V->begin(),V->end(),val,cut)) } case 18: GO(ba::parallel_generate(V->begin(),V->end(),Ge(),cut)) case 19: GO(ba::parallel_swap_ranges(V->begin(),V->end(),O->begin(),cut)) case 20: GO(ba::parallel_transform(V->begin(),V->end(),O->begin(),Tr(),cut)) case 21: GO(ba::parallel_find_all(V->begin(),V->end(),Pr(),cut))
      case 22: GO(ba::parallel_for(std::move(*V),Ap(),cut)) case 23: GO(ba::parallel_sort(std::move(*V),LtE(),cut)) case 24: GO(ba::parallel_for(ba::parallel_for(std::move(*V),Ap(),cut),Ap(),cut))
      case 25: GO(ba::parallel_reverse(M->begin(),M->end(),cut)) case 26: GO(ba::parallel_partition(M->begin(),M->end(),Pm(),th)) default: GO(ba::parallel_for(M->begin(),M->end(),Am(),cut)) }
    g_kind=0; g_fuse=-1; p=SP();
    // permuting algorithms without an exception keep every element, not one is left moved-from or lost
    if(ok&&((a>=3&&a<=8)||a==10||a==13||a>=25)){ if(a>=25) for(auto& x:*M) after.push_back(x.v()); else for(auto& x:*V) after.push_back(x.v()); std::sort(before.begin(),before.end()); std::sort(after.begin(),after.end()); if(before!=after) mon::fail_s(std::string("lifetime:elements-")+aname[a],"the range does not hold the same elements any more"); }
    if(ok&&(a==0||a==1||a==14||a==20||a==21||a==2)) for(int i=0;i<n;++i) if((*V)[i].v()!=before[i]){ mon::fail_s(std::string("lifetime:source-")+aname[a],"source range changed"); break; } 
    if(ok&&a==9) for(auto& x:*S) (void)x.v(); }
  g_kind=0; g_fuse=-1; mon::expect_no_live((std::string("leak:")+aname[a]).c_str()); }

// results, arguments and callbacks of move-only type on all paths of the posting functions
struct MT { mon::MToken t; int mode; MT(int i,int m):t(i),mode(m){} MT(MT&&)=default; MT& operator=(MT&&)=default; mon::MToken operator()(){ mon::ev(); (void)t.value(); if(mode==1) throw Boom{9}; if(mode==2){ for(int i=0;i<10;++i){ boost::this_thread::interruption_point(); mon::nap_us(10); } } return std::move(t); } };
struct CT : ba::continuation_task<mon::Token> { mon::Token k; int d,mode; CT(int i,int dd,int m):ba::continuation_task<mon::Token>("ct"),k(i),d(dd),mode(m){} void operator()(){ auto r=this->this_task_result(); mon::ev(); int m=mode,v=k.value(); if(d==0){ if(m==1&&v%3==0) r.set_exception(std::make_exception_ptr(Boom{7})); else r.set_value(k); return; }
  mon::Token held(v); std::vector<CT> s; for(int i=0;i<2+v%3;++i) s.emplace_back(v*3+i,d-1,m); ba::create_callback_continuation_job<AC>([r,held](std::vector<ba::expected<mon::Token>> e) mutable { try{ int x=held.value(); for(auto& y:e) x+=y.get().value(); r.set_value(mon::Token(x)); }catch(...){ r.set_exception(std::current_exception()); } },std::move(s)); } };
void posts(Case& c){ c.chaos(); int n=c.rng.range(1,20); bool drop=c.rng.p(40); c.say("posts n=%d drop=%d chaos=%d",n,drop,mon::S().chaos.load()); c.sig(c.rng.next());
  { std::vector<std::future<mon::MToken>> f; std::vector<std::future<mon::Token>> g; std::vector<ba::any_interruptible> in; std::vector<int> want; { SP p=mkp(c.rng);
      for(int i=0;i<n;++i){ int m=c.rng(3); switch(c.rng(4)){ case 0: { auto t=std::make_shared<MT>(i,m); f.push_back(ba::post_future(p,[t]{ return (*t)(); },"p",0)); break; } case 1: { auto t=std::make_shared<MT>(i,m); auto x=ba::interruptible_post_future(p,[t]{ return (*t)(); },"i",0); f.push_back(std::move(std::get<0>(x))); in.push_back(std::get<1>(x)); break; }
          case 2: { int d=c.rng(4); g.push_back(ba::post_future(p,[i,d,m]{ return ba::top_level_callback_continuation_job<mon::Token,AC>(CT(i,d,m)); },"c",0)); break; } default: { int d=c.rng(3); auto x=ba::interruptible_post_future(p,[i,d,m]{ return ba::top_level_callback_continuation_job<mon::Token,AC>(CT(i,d,m)); },"ic",0); g.push_back(std::move(std::get<0>(x))); in.push_back(std::get<1>(x)); } }
        if(!in.empty()&&c.rng.p(25)) in[c.rng((int)in.size())].interrupt(); }
      if(!drop) for(auto& x:g) x.wait_for(std::chrono::seconds(30)); if(c.rng.p(30)){ f.clear(); } }
    for(auto& x:f){ if(x.wait_for(std::chrono::seconds(30))!=std::future_status::ready){ mon::fail_s("crash:hang-posts","future never ready"); break; } try{ auto t=x.get(); (void)t.value(); }catch(...){} }
    for(auto& x:g) if(x.wait_for(std::chrono::milliseconds(0))==std::future_status::ready) try{ auto t=x.get(); (void)t.value(); }catch(...){} }
  mon::expect_no_live("leak:posts"); }
}
SCENARIO(el_ok,300,6000){ algos(c,false); }
SCENARIO(el_throw,400,8000){ algos(c,true); }
SCENARIO(el_posts,200,4000){ posts(c); }
