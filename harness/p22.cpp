// P22: diagnostics account for every executed job once, with consistent times and flags.
// PART 1: jobs of every form on every loggable scheduler, concurrent readers, clearing. PART 2: servants, callbacks, continuations. PART 3: summaries and formatting against a reference.
#include "anypool.hpp"
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#if PART==3
#include <boost/asynchronous/diagnostics/html_formatter.hpp>
#include <boost/asynchronous/diagnostics/formatter.hpp>
#endif
using mon::fail_s; using mon::fmt;
typedef std::chrono::high_resolution_clock Clk; typedef Clk::time_point TP;
typedef ba::diagnostic_item DI; typedef ba::scheduler_diagnostics SD;
#define K(k) (std::string("diag:")+k)
enum { LK_IO=100, LK_MT };
static int kinds(){ return PK_ASIO+2; } // any_pool kinds below PK_ASIO, io pool, multiple-thread scheduler
static int kind_of(int i){ return i<PK_ASIO?i:LK_IO+(i-PK_ASIO); }
static const char* kname(int k){ return k==LK_IO?"io":k==LK_MT?"multi":pool_name[k]; }
static LSP lpool(int k,size_t w){ typedef ba::lockfree_queue<AL> L;
  if(k==LK_IO) return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<L>>((size_t)1,w+1);
  if(k==LK_MT) return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<L>>(w,(size_t)3);
  return any_pool<AL>(k,w); }
struct Ex { int i; };
static int in_all(SD const& d,std::string const& n){ auto it=d.totals().find(n); return it==d.totals().end()?0:(int)it->second.size(); }
static int total(SD const& d){ int n=0; for(auto&x:d.totals()) if(!x.first.empty()) n+=(int)x.second.size(); return n; }

#if PART==1
static std::atomic<long> gseq{1};
struct J { int kind=0; bool ran=false,done=false; TP p0,p1,b,e; boost::thread::id tid; std::atomic<long> body_start{0},body_end{0},next_on_thread{0}; std::atomic<int> finished{0}; };
struct Run; static thread_local Run* tl_run=nullptr; static thread_local J* tl_prev=nullptr;
struct Run { std::vector<J> j; explicit Run(int n):j((size_t)n){} };
// monitors around the body of a job; identifies the previous job of the same thread as over
struct Body { J& j; Body(Run* r,J& x):j(x){ if(tl_run!=r){ tl_run=r; tl_prev=nullptr; } j.tid=boost::this_thread::get_id(); j.b=Clk::now(); j.ran=true; long s=gseq.fetch_add(1); if(tl_prev) tl_prev->next_on_thread=s; tl_prev=&j; j.body_start=s; mon::ev(); }
  ~Body(){ j.e=Clk::now(); j.body_end=gseq.fetch_add(1); j.finished=1; } };
enum { RAW_OK,RAW_STD,RAW_INT,FU_OK,FU_STD,FU_INT,IFU_OK,IFU_STD,IRAW_OK,IRAW_STD,IFU_INTR,IRAW_INTR,IFU_LATE,CONT_OK,NKIND };
static const char* kn[]={"raw_ok","raw_throw","raw_throw_int","fu_ok","fu_throw","fu_throw_int","ifu_ok","ifu_throw","iraw_ok","iraw_throw","ifu_interrupted","iraw_interrupted","ifu_interrupted_early","cont_ok"};
static bool fails(int k){ return k==RAW_STD||k==RAW_INT||k==FU_STD||k==FU_INT||k==IFU_STD||k==IRAW_STD; }
struct CT : ba::continuation_task<int>{ int v; explicit CT(int x):ba::continuation_task<int>("sub"),v(x){} void operator()()const{ this->this_task_result().set_value(v); } };

static void check_current(SD const& d,Run& r,std::map<std::string,int>& idx,long t0,const char* kd){
  std::map<std::string,int> seen;
  for(auto&c:d.current()){ if(c.first.empty()) continue; mon::ev(); auto it=idx.find(c.first); if(it==idx.end()){ if(c.first!="sub"&&c.first!="gate") fail_s(K("current_unknown:")+kd,"unknown job listed as running: "+c.first); continue; }
    J& j=r.j[(size_t)it->second]; if(++seen[c.first]>1) fail_s(K("current_twice:")+kd,"job "+c.first+" listed twice as running");
    long nx=j.next_on_thread.load(); if(nx&&nx<t0) fail_s(K("current_stale:")+kd+":"+kn[j.kind],"job "+c.first+" is listed as running though its thread went on to another job before");
    DI const& i=c.second; if(!(i.get_posted_time()<=i.get_started_time())) fail_s(K("current_times:")+kd,"running job started before it was posted"); }
  for(auto&x:idx){ J& j=r.j[(size_t)x.second]; long bs=j.body_start.load(); if(bs&&bs<t0&&j.body_end.load()==0&&!seen.count(x.first)){ fail_s(K("current_missing:")+kd+":"+kn[j.kind],"job "+x.first+" runs but is not listed as running"); } } }

SCENARIO(jobs_exact,60,500){ c.chaos(); int k=kind_of(c.rng(kinds())); size_t w=(size_t)c.rng.range(1,4); int n=c.rng.range(1,40); int readers=c.rng(3), posters=c.rng.range(1,3);
  c.say("%s w=%zu n=%d readers=%d posters=%d",kname(k),w,n,readers,posters); const char* kd=kname(k); c.limit(60);
  Run R(n); std::map<std::string,int> idx; std::vector<std::string> names; std::vector<ba::any_interruptible> ints((size_t)n); std::vector<std::future<int>> fus((size_t)n);
  for(int i=0;i<n;++i){ R.j[(size_t)i].kind=c.rng(NKIND); names.push_back("j"+std::to_string(i)); idx[names.back()]=i; }
  uint64_t sg=0; { LSP p=lpool(k,w); std::atomic<bool> stop{false}; std::vector<std::thread> th; Run* rp=&R; std::atomic<long> reads{0};
    for(int r=0;r<readers;++r) th.emplace_back([&,p]{ std::map<std::string,int> last; while(!stop){ long t0=gseq.fetch_add(1); SD d=p.get_diagnostics(); ++reads; check_current(d,R,idx,t0,kd);
        for(auto&l:last) if(in_all(d,l.first)<l.second){ fail_s(K("total_lost:")+kd,"job "+l.first+" was in the totals and vanished"); }
        last.clear(); for(auto&x:d.totals()) last[x.first]=(int)x.second.size(); } });
    std::atomic<int> next{0}; std::vector<std::thread> ps; uint64_t cs=c.seed;
    for(int q=0;q<posters;++q) ps.emplace_back([&,p,q]{ mon::Rng rng(cs+(uint64_t)q); for(;;){ int i=next++; if(i>=n) return; J* j=&R.j[(size_t)i]; int nap=rng(3)?0:rng(300); std::string const& nm=names[(size_t)i]; j->p0=Clk::now(); int pr=rng(4)?0:rng.range(1,3);
        auto ok=[rp,j,nap]{ Body b(rp,*j); if(nap) mon::nap_us(nap); return 7; }; auto vok=[ok]{ ok(); };
        auto th1=[rp,j,nap]()->int{ Body b(rp,*j); if(nap) mon::nap_us(nap); throw std::runtime_error("x"); }; auto th2=[rp,j]()->int{ Body b(rp,*j); throw Ex{3}; };
        auto in=[rp,j]()->int{ Body b(rp,*j); for(;;){ boost::this_thread::interruption_point(); mon::nap_us(50); } return 0; };
        switch(j->kind){
          case RAW_OK: p.post(mkjob<AL>(vok,nm.c_str()),(size_t)pr); break; case RAW_STD: p.post(mkjob<AL>([th1]{ th1(); },nm.c_str()),(size_t)pr); break; case RAW_INT: p.post(mkjob<AL>([th2]{ th2(); },nm.c_str()),(size_t)pr); break;
          case FU_OK: fus[(size_t)i]=ba::post_future(p,ok,nm,(size_t)pr); break; case FU_STD: fus[(size_t)i]=ba::post_future(p,th1,nm,(size_t)pr); break; case FU_INT: fus[(size_t)i]=ba::post_future(p,th2,nm,(size_t)pr); break;
          case IFU_OK: { auto t=ba::interruptible_post_future(p,ok,nm,(size_t)pr); fus[(size_t)i]=std::move(std::get<0>(t)); break; } case IFU_STD: { auto t=ba::interruptible_post_future(p,th1,nm,(size_t)pr); fus[(size_t)i]=std::move(std::get<0>(t)); break; }
          case IRAW_OK: (void)p.interruptible_post(mkjob<AL>(vok,nm.c_str())); break; case IRAW_STD: (void)p.interruptible_post(mkjob<AL>([th1]{ th1(); },nm.c_str())); break;
          case IFU_INTR: case IFU_LATE: { auto t=ba::interruptible_post_future(p,in,nm,(size_t)pr); fus[(size_t)i]=std::move(std::get<0>(t)); j->p1=Clk::now(); if(j->kind==IFU_INTR) mon::wait_for([&]{ return j->body_start.load()!=0; },20); std::get<1>(t).interrupt(); break; }
          case IRAW_INTR: { auto t=p.interruptible_post(mkjob<AL>([in]{ in(); },nm.c_str())); j->p1=Clk::now(); mon::wait_for([&]{ return j->body_start.load()!=0; },20); t.interrupt(); break; }
          case CONT_OK: fus[(size_t)i]=ba::post_future(p,[rp,j]{ Body b(rp,*j); return ba::top_level_callback_continuation_job<int,AL>(CT(5)); },nm,(size_t)pr); break; }
        if(j->kind!=IFU_INTR&&j->kind!=IFU_LATE&&j->kind!=IRAW_INTR) j->p1=Clk::now(); mon::jitter(); } });
    for(auto&t:ps) t.join();
    bool all=mon::wait_for([&]{ SD d=p.get_diagnostics(); for(auto&x:names) if(!in_all(d,x)) return false; return true; },15);
    SD d=p.get_diagnostics(); (void)all;
    for(int i=0;i<n;++i){ J& j=R.j[(size_t)i]; std::string kk=std::string(kd)+":"+kn[j.kind]; std::string const& nm=names[(size_t)i]; int cnt=in_all(d,nm);
      if(cnt==0){ fail_s(K("missing:")+kk,"job "+nm+" was executed but never appeared in the diagnostics"); continue; } if(cnt>1) fail_s(K("twice:")+kk,"job "+nm+" appears "+std::to_string(cnt)+" times");
      DI const& t=d.totals().find(nm)->second.front(); mon::ev(3);
      bool early=(j.kind==IFU_LATE&&!j.ran); bool intr=j.kind==IFU_INTR||j.kind==IRAW_INTR||j.kind==IFU_LATE;
      if(t.is_failed()!=fails(j.kind)) fail_s(K("failed_flag:")+kk,"failed flag is "+std::to_string(t.is_failed())); if(t.is_interrupted()!=intr) fail_s(K("interrupted_flag:")+kk,"interrupted flag is "+std::to_string(t.is_interrupted()));
      if(!(t.get_posted_time()<=t.get_started_time()&&t.get_started_time()<=t.get_finished_time())) fail_s(K("times_order:")+kk,"posted <= started <= finished violated");
      if(!(j.p0<=t.get_posted_time()&&t.get_posted_time()<=j.p1)) fail_s(K("posted_time:")+kk,"posted time is not within the call which posted the job");
      if(!early&&!j.finished.load()) fail_s(K("before_end:")+kk,"in the totals before it ended");
      if(!early){ if(!(t.get_started_time()<=j.b)) fail_s(K("started_time:")+kk,"started time is later than the start of the body"); if(!(j.e<=t.get_finished_time())) fail_s(K("finished_time:")+kk,"finished time is before the end of the body"); if(t.get_executing_thread_id()!=j.tid) fail_s(K("thread_id:")+kk,"wrong executing thread id"); sg=mon::mix(sg^(uint64_t)j.body_start); }
      sg=mon::mix(sg+(uint64_t)j.kind); }
    for(auto&x:d.totals()) if(!x.first.empty()&&x.first!="sub"&&!idx.count(x.first)) fail_s(K("unknown_name:")+kd,"job under a name never posted: "+x.first);
    // nothing runs any more
    if(!mon::wait_for([&]{ SD q=p.get_diagnostics(); for(auto&x:q.current()) if(!x.first.empty()) return false; return true; },10)){ std::string s; SD q=p.get_diagnostics(); for(auto&x:q.current()) s+=x.first+(idx.count(x.first)?std::string("(")+kn[R.j[(size_t)idx[x.first]].kind]+") ":" "); fail_s(K("current_leftover:")+kd,"listed as running on an idle scheduler: "+s); }
    stop=true; for(auto&t:th) t.join(); mon::count("reads",reads.load()); mon::count((std::string("pool_")+kd).c_str());
    p.clear_diagnostics(); if(total(p.get_diagnostics())) fail_s(K("clear:")+kd,"jobs left after clearing an idle scheduler");
  }
  for(int i=0;i<n;++i) if(fus[(size_t)i].valid()){ try{ fus[(size_t)i].get(); }catch(...){} }
  c.sig(sg); }

// blocked jobs: the running jobs are listed exactly
SCENARIO(current_exact,25,200){ c.chaos(); int k=kind_of(c.rng(kinds())); size_t w=(size_t)c.rng.range(1,4); c.say("%s w=%zu",kname(k),w); const char* kd=kname(k);
  LSP p=lpool(k,w); int cap=k==PK_SINGLE?1:(k==PK_COMPOSITE?1:(int)w); int n=c.rng.range(1,cap+3); std::atomic<int> running{0}; std::atomic<bool> go{false}; std::vector<std::atomic<int>> st((size_t)n); for(auto&x:st) x=0; std::vector<std::future<void>> fu;
  for(int i=0;i<n;++i) fu.push_back(ba::post_future(p,[&,i]{ st[(size_t)i]=1; ++running; while(!go) mon::nap_us(100); st[(size_t)i]=2; },"b"+std::to_string(i),k==PK_COMPOSITE?(size_t)1:k==LK_MT?(size_t)i:(size_t)0));
  mon::wait_for([&]{ return running.load()>=1; },10); if(c.rng(2)) mon::wait_for([&]{ return running.load()>=std::min(n,cap); },3);
  for(int q=0;q<3;++q){ std::set<std::string> must; for(int i=0;i<n;++i) if(st[(size_t)i]==1) must.insert("b"+std::to_string(i)); SD d=p.get_diagnostics(); std::set<std::string> may; for(int i=0;i<n;++i) may.insert("b"+std::to_string(i)); std::multiset<std::string> got; for(auto&x:d.current()) if(!x.first.empty()) got.insert(x.first); mon::ev((long)got.size());
    for(auto&m:must) if(got.count(m)!=1) fail_s(K("blocked_listed:")+kd,fmt("running job %s listed %d times",m.c_str(),(int)got.count(m))); for(auto&g:got) if(!may.count(g)) fail_s(K("blocked_other:")+kd,"not running: "+g);
    if(k!=PK_COMPOSITE&&k!=LK_IO&&(int)d.current().size()>(int)(k==PK_SINGLE?1:w)) fail_s(K("current_size:")+kd,"more running jobs than threads"); if(total(d)) fail_s(K("blocked_totals:")+kd,"unfinished jobs in the totals"); mon::jitter(); }
  go=true; for(auto&f:fu) f.get(); mon::wait_for([&]{ return total(p.get_diagnostics())>=n; },10); SD d=p.get_diagnostics(); if(total(d)!=n) fail_s(K("blocked_count:")+kd,fmt("%d of %d jobs logged",total(d),n)); 
  for(auto&x:d.totals()) for(auto&i:x.second) if(i.is_failed()||i.is_interrupted()) fail_s(K("blocked_flags:")+kd,"flag set on a job which ended normally"); c.sig((uint64_t)n*100+(uint64_t)k); }

// clearing removes what was there, and nothing which ends later
SCENARIO(clear_exact,30,300){ c.chaos(); int k=kind_of(c.rng(kinds())); size_t w=(size_t)c.rng.range(1,4); int na=c.rng.range(0,15),nr=c.rng.range(0,20),nb=c.rng.range(1,20); c.say("%s w=%zu a=%d r=%d b=%d",kname(k),w,na,nr,nb); const char* kd=kname(k);
  LSP p=lpool(k,w); std::vector<std::future<void>> fa,fr,fb; for(int i=0;i<na;++i) fa.push_back(ba::post_future(p,[]{ mon::jitter(); },"a",0)); for(auto&f:fa) f.get();
  if(!mon::wait_for([&]{ return in_all(p.get_diagnostics(),"a")==na; },10)) fail_s(K("clear_setup:")+kd,fmt("%d of %d jobs logged",in_all(p.get_diagnostics(),"a"),na));
  std::atomic<bool> stop{false}; std::thread rd; if(c.rng(2)) rd=std::thread([&,p]{ while(!stop){ (void)p.get_diagnostics(); mon::nap_us(20); } });
  for(int i=0;i<nr;++i) fr.push_back(ba::post_future(p,[]{ mon::jitter(); },"r",0)); if(c.rng(2)) mon::nap_us(c.rng(300));
  std::thread cl; int ncl=c.rng(2)?c.rng(3):0; if(ncl) cl=std::thread([&,p]()mutable{ for(int i=0;i<ncl;++i) p.clear_diagnostics(); }); p.clear_diagnostics(); if(cl.joinable()) cl.join();
  for(int i=0;i<nb;++i) fb.push_back(ba::post_future(p,[]{ mon::jitter(); },"b",0)); for(auto&f:fr) f.get(); for(auto&f:fb) f.get();
  mon::wait_for([&]{ return in_all(p.get_diagnostics(),"b")>=nb; },10); SD d=p.get_diagnostics(); stop=true; if(rd.joinable()) rd.join();
  if(in_all(d,"a")) fail_s(K("clear_left:")+kd,fmt("%d jobs survived clearing",in_all(d,"a"))); if(in_all(d,"b")!=nb) fail_s(K("clear_later:")+kd,fmt("%d of %d jobs posted after clearing are logged",in_all(d,"b"),nb)); if(in_all(d,"r")>nr) fail_s(K("clear_dup:")+kd,"job logged more than once");
  mon::ev(na+nr+nb); c.sig((uint64_t)in_all(d,"r")*1000+(uint64_t)nb); }
#endif

#if PART==2
struct Cnt { std::mutex m; std::map<std::string,int> n,f; void add(std::string const& s,bool bad){ std::lock_guard<std::mutex> l(m); ++n[s]; if(bad) ++f[s]; } };
struct Sv : ba::trackable_servant<AL,AL>{ Cnt* pc; Cnt* sc; std::atomic<int>* left; 
  Sv(ba::any_weak_scheduler<AL> s,LSP w,Cnt* a,Cnt* b,std::atomic<int>* l):ba::trackable_servant<AL,AL>(s,w),pc(a),sc(b),left(l){ sc->add("ctor",false); }
  ~Sv(){ sc->add("dtor",false); }
  int m(int x){ mon::jitter(); sc->add("m",x<0); if(x<0) throw Ex{x}; return x; }
  void v(int x){ sc->add("v",x<0); if(x<0) throw std::runtime_error("v"); }
  void unlogged(int){ }
  void work(int kind,std::string nm){ Cnt* p=pc; Cnt* s=sc; auto* l=left; sc->add("work",false);
    switch(kind){
      case 0: post_callback([p,nm]{ p->add(nm,false); mon::jitter(); return 1; },[s,nm,l](ba::expected<int>){ s->add(nm,false); --*l; },nm); break;
      case 1: post_callback([p,nm]()->int{ p->add(nm,true); throw Ex{1}; },[s,nm,l](ba::expected<int> e){ s->add(nm,false); if(!e.has_exception()) fail_s(K("cb_ex"),"exception lost"); --*l; },nm); break;
      case 2: post_callback([p,nm]{ p->add(nm,false); },[s,nm,l](ba::expected<void>){ s->add(nm,true); --*l; throw Ex{2}; },nm); break;
      case 3: (void)interruptible_post_callback([p,nm]{ p->add(nm,false); return 1; },[s,nm,l](ba::expected<int>){ s->add(nm,false); --*l; },nm); break;
      case 4: (void)interruptible_post_callback([p,nm]()->int{ p->add(nm,true); throw std::runtime_error("q"); },[s,nm,l](ba::expected<int>){ s->add(nm,false); --*l; },nm); break;
      case 5: { auto f=post_future([p,nm,l]()->int{ p->add(nm,true); --*l; throw Ex{5}; },nm); break; }
      default: { post_self([s,nm,l]{ s->add(nm,false); --*l; },nm); break; } } } };
struct Px : ba::servant_proxy<Px,Sv,AL>{ typedef ba::servant_proxy<Px,Sv,AL>::callable_type callable_type;
  template<class S,class... A> Px(S s,A... a):ba::servant_proxy<Px,Sv,AL>(s,a...){}
  BOOST_ASYNC_FUTURE_MEMBER_LOG(m,"m") BOOST_ASYNC_POST_MEMBER_LOG(v,"v",1) BOOST_ASYNC_POST_MEMBER(unlogged) BOOST_ASYNC_POST_MEMBER_LOG(work,"work")
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",1) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",1) };
static void cmp(SD const& d,Cnt& c,const char* where,std::string const& kd){ std::lock_guard<std::mutex> l(c.m);
  for(auto&x:d.totals()) if(!x.first.empty()&&!c.n.count(x.first)) fail_s(K("unposted:")+where,"logged under a name never posted here: "+x.first);
  for(auto&x:c.n){ auto it=d.totals().find(x.first); int n=it==d.totals().end()?0:(int)it->second.size(), f=0; if(n) for(auto&i:it->second){ f+=i.is_failed(); mon::ev(); if(i.is_interrupted()) fail_s(K("intr:")+where,"interrupted flag without interruption: "+x.first); if(!(i.get_posted_time()<=i.get_started_time()&&i.get_started_time()<=i.get_finished_time())) fail_s(K("order:")+where,"times out of order: "+x.first); }
    std::string base=x.first[0]=='w'&&x.first.size()>1&&x.first!="work"?"w"+x.first.substr(1,1):x.first;
    if(n!=x.second) fail_s(K("count:")+where+":"+base,fmt("%s: %d executed, %d logged (%s)",x.first.c_str(),x.second,n,kd.c_str())); if(f!=c.f[x.first]) fail_s(K("failed:")+where+":"+base,fmt("%s: %d failed, %d flagged (%s)",x.first.c_str(),c.f[x.first],f,kd.c_str())); } }
SCENARIO(servants,40,400){ c.chaos(); int k=kind_of(c.rng(kinds())); size_t w=(size_t)c.rng.range(1,4); int n=c.rng.range(1,40); c.say("%s w=%zu n=%d",kname(k),w,n); uint64_t sg=0;
  { Cnt pc,sc; std::atomic<int> left{0}; LSP s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<AL>>>(); LSP p=lpool(k,w);
    { Px px(s,p,&pc,&sc,&left); std::vector<std::future<int>> fu; for(int i=0;i<n;++i){ int q=c.rng(6); sg=mon::mix(sg+(uint64_t)q); if(q==0) fu.push_back(px.m(c.rng(2)?1:-1)); else if(q==1) px.v(c.rng(2)?1:-1); else if(q==2) px.unlogged(1); else { int wk=c.rng(7); ++left; px.work(wk,"w"+std::to_string(wk)+"_"+std::to_string(c.rng(4))); } }
      for(auto&f:fu) try{ f.get(); }catch(Ex&){}
      if(!mon::wait_for([&]{ return left.load()==0; },20)) fail_s(K("servant_stuck"),"callbacks never came"); }
    mon::wait_for([&]{ return in_all(s.get_diagnostics(),"dtor")==1; },5);
    auto tot=[](Cnt& x){ std::lock_guard<std::mutex> l(x.m); int q=0; for(auto&y:x.n) q+=y.second; return q; };
    mon::wait_for([&]{ return total(p.get_diagnostics())>=tot(pc)&&total(s.get_diagnostics())>=tot(sc); },3);
    cmp(p.get_diagnostics(),pc,"pool",kname(k)); cmp(s.get_diagnostics(),sc,"servant",kname(k)); }
  c.sig(sg); }
// subtasks of continuations: logged under their names, at most once per execution, the posted one exactly once
struct Tree : ba::continuation_task<int>{ Cnt* cn; int d; int id; Tree(Cnt* c,int dd,int i):ba::continuation_task<int>("t"+std::to_string(dd)),cn(c),d(dd),id(i){}
  void operator()()const{ cn->add("t"+std::to_string(d),false); auto r=this->this_task_result(); if(d==0){ r.set_value(1); return; }
    ba::create_callback_continuation_job<AL>([r](std::tuple<ba::expected<int>,ba::expected<int>> x){ r.set_value(std::get<0>(x).get()+std::get<1>(x).get()); },Tree(cn,d-1,2*id),Tree(cn,d-1,2*id+1)); } };
SCENARIO(trees,25,250){ c.chaos(); int k=kind_of(c.rng(kinds())); size_t w=(size_t)c.rng.range(1,4); int d=c.rng.range(0,5),n=c.rng.range(1,4); c.say("%s w=%zu d=%d n=%d",kname(k),w,d,n);
  LSP p=lpool(k,w); Cnt cn; Cnt* pc=&cn; std::vector<std::future<int>> fu; for(int i=0;i<n;++i) fu.push_back(ba::post_future(p,[pc,d]{ return ba::top_level_callback_continuation_job<int,AL>(Tree(pc,d,1)); },"root")); for(auto&f:fu) if(f.get()!=1<<d) fail_s(K("tree_value"),"wrong value");
  mon::wait_for([&]{ return in_all(p.get_diagnostics(),"root")==n; },5); int last=-1,quiet=0; mon::wait_for([&]{ int t=total(p.get_diagnostics()); if(t==last) ++quiet; else quiet=0; last=t; return quiet>3; },5);
  SD dg=p.get_diagnostics(); if(in_all(dg,"root")!=n) fail_s(K("tree_root"),"posted job not logged exactly once"); std::lock_guard<std::mutex> l(cn.m);
  for(auto&x:dg.totals()){ if(x.first.empty()||x.first=="root") continue; if((int)x.second.size()>cn.n[x.first]) fail_s(K("tree_sub"),fmt("%s executed %d times, logged %zu times",x.first.c_str(),cn.n[x.first],x.second.size())); for(auto&i:x.second){ mon::ev(); if(i.is_failed()||i.is_interrupted()) fail_s(K("tree_flags"),"flag set on a subtask which ended normally"); if(!(i.get_posted_time()<=i.get_started_time()&&i.get_started_time()<=i.get_finished_time())) fail_s(K("tree_times"),"times out of order"); } }
  if(d>0&&total(dg)==n) fail_s(K("tree_none"),"no subtask was logged"); c.sig((uint64_t)total(dg)); }
#endif

#if PART==3
typedef std::chrono::nanoseconds NS;
static TP tp(long ns){ return TP(std::chrono::duration_cast<TP::duration>(NS(ns))); }
struct It { std::string name; long p,s,f; bool fail,intr; };
static SD mk(std::vector<It> const& v){ SD::total_type t; for(auto&i:v) t[i.name].push_back(DI(tp(i.p),tp(i.s),tp(i.f),i.intr,i.fail,boost::thread::id())); return SD(t,SD::current_type()); }
struct St { size_t n=0; long tot=0,mx=0,mn=0; void add(long d){ if(!n||d>mx) mx=d; if(!n||d<mn) mn=d; tot+=d; ++n; } long avg()const{ return n?tot/(long)n:0; } };
struct Rf { St sch,ok,fl,in,all; };
static std::vector<It> gen(mon::Rng& r,int n,int names){ std::vector<It> v; static const char* nm[]={"alpha","beta","<g&\"a>","delta d","x"}; for(int i=0;i<n;++i){ It t; t.name=r(12)?nm[r(names)]:""; t.p=1000000000l+r(1000000); t.s=t.p+(r(4)?r(r(2)?50:5000000):0); t.f=t.s+(r(4)?r(r(2)?50:2000000000):0); int q=r(3); t.fail=q==1; t.intr=q==2; v.push_back(t); } return v; }
static std::map<std::string,Rf> ref(std::vector<It> const& v){ std::map<std::string,Rf> m; for(auto&i:v){ if(i.name.empty()) continue; Rf& r=m[i.name]; r.sch.add(i.s-i.p); r.all.add(i.f-i.p); (i.fail?r.fl:i.intr?r.in:r.ok).add(i.f-i.s); } return m; }
template<class D> static void one(St const& s,D const& d,size_t n,const char* key,const char* ctx){ mon::ev(5); 
  if(n!=s.n) fail_s(K("summary_count:")+ctx,fmt("%s: %zu instead of %zu",key,n,s.n)); if(d.total.count()!=s.tot) fail_s(K("summary_total:")+ctx,fmt("%s: total %ld instead of %ld",key,(long)d.total.count(),s.tot)); if(d.average.count()!=s.avg()) fail_s(K("summary_average:")+ctx,fmt("%s: average %ld instead of %ld",key,(long)d.average.count(),s.avg()));
  if(s.n){ if(d.max.count()!=s.mx) fail_s(K("summary_max:")+ctx,fmt("%s: max %ld instead of %ld",key,(long)d.max.count(),s.mx)); if(d.min.count()!=s.mn) fail_s(K("summary_min:")+ctx,fmt("%s: min %ld instead of %ld",key,(long)d.min.count(),s.mn)); } }
static void cmp_summary(ba::summary_diagnostics const& s,std::vector<It> const& v,const char* ctx){ auto m=::ref(v); bool hf=false,hi=false; if(s.items.size()!=m.size()) fail_s(K("summary_names:")+ctx,fmt("%zu names instead of %zu",s.items.size(),m.size()));
  St X[5][4]; for(auto&x:m){ auto it=s.items.find(x.first); if(it==s.items.end()){ fail_s(K("summary_missing:")+ctx,"name missing"); continue; } auto& e=it->second; Rf& r=x.second; hf|=r.fl.n>0; hi|=r.in.n>0; if(e.job_name!=x.first) fail_s(K("summary_name:")+ctx,"wrong job name");
    one(r.sch,e.durations.scheduling,e.count.scheduling,"scheduling",ctx); one(r.ok,e.durations.success,e.count.success,"success",ctx); one(r.fl,e.durations.failure,e.count.failure,"failure",ctx); one(r.in,e.durations.interruption,e.count.interruption,"interruption",ctx); one(r.all,e.durations.total,e.count.total,"total",ctx);
    St* q[]={&r.sch,&r.ok,&r.fl,&r.in,&r.all}; for(int i=0;i<5;++i) if(q[i]->n){ X[i][0].add(q[i]->tot); X[i][1].add(q[i]->avg()); X[i][2].add(q[i]->mx); X[i][3].add(q[i]->mn); } }
  if(s.has_fails!=hf||s.has_interrupts!=hi) fail_s(K("summary_has:")+ctx,"has_fails / has_interrupts wrong");
  auto mx=[&](St* x,ba::diagnostics_stats<NS> const& d,bool present,const char* nm){ if(present!=(x[0].n>0)) fail_s(K("maxima_present:")+ctx,nm); if(!x[0].n) return; if(d.total.count()!=x[0].mx||d.average.count()!=x[1].mx||d.max.count()!=x[2].mx||d.min.count()!=x[3].mx) fail_s(K("maxima:")+ctx,fmt("%s: maxima over the jobs are total %ld avg %ld max %ld min %ld instead of %ld %ld %ld %ld",nm,(long)d.total.count(),(long)d.average.count(),(long)d.max.count(),(long)d.min.count(),x[0].mx,x[1].mx,x[2].mx,x[3].mx)); };
  mx(X[0],s.maxima.scheduling,s.maxima_present.scheduling,"scheduling"); mx(X[1],s.maxima.success,s.maxima_present.success,"success"); mx(X[2],s.maxima.failure,s.maxima_present.failure,"failure"); mx(X[3],s.maxima.interruption,s.maxima_present.interruption,"interruption"); mx(X[4],s.maxima.total,s.maxima_present.total,"total"); }
SCENARIO(summary,300,3000){ int parts=c.rng.range(1,4); std::vector<It> all; ba::summary_diagnostics s; std::map<std::string,std::vector<ba::simple_diagnostic_item>> simple; bool fill=c.rng(2); c.say("merges=%d",parts); uint64_t sg=0;
  // dirty memory below the object: members must not depend on what was there
  alignas(ba::summary_diagnostics) static unsigned char buf[sizeof(ba::summary_diagnostics)]; memset(buf,fill?0xff:0,sizeof buf); ba::summary_diagnostics* sp=new(buf) ba::summary_diagnostics; 
  for(int i=0;i<parts;++i){ auto v=gen(c.rng,c.rng.range(0,12),c.rng.range(1,5)); all.insert(all.end(),v.begin(),v.end()); sp->merge(mk(v),simple); sg=mon::mix(sg+v.size()); }
  cmp_summary(*sp,all,parts==1?"one":"merged"); size_t n=0,named=0; for(auto&x:simple) n+=x.second.size(); for(auto&i:all) named+=!i.name.empty(); if(n!=named) fail_s(K("simple_count"),"individual items lost"); 
  { auto it=all.begin(); std::map<std::string,size_t> pos; for(;it!=all.end();++it) if(!it->name.empty()){ (void)pos; } }
  std::map<std::string,std::multiset<std::string>> a,b; for(auto&i:all) if(!i.name.empty()) a[i.name].insert(fmt("%ld %ld %ld %d %d",i.s-i.p,i.f-i.s,i.f-i.p,i.fail,i.intr)); for(auto&x:simple) for(auto&i:x.second){ if(i.job_name!=x.first) fail_s(K("simple_name"),"wrong name"); b[x.first].insert(fmt("%ld %ld %ld %d %d",(long)i.scheduling.count(),(long)i.execution.count(),(long)i.total.count(),i.failed,i.interrupted)); } if(a!=b) fail_s(K("simple_items"),"individual items differ from the jobs");
  ba::summary_diagnostics s2(mk(all)); cmp_summary(s2,all,"ctor"); sp->~summary_diagnostics(); c.sig(sg+(uint64_t)all.size()); }
SCENARIO(sd_merge,60,600){ std::vector<It> all; SD d; int parts=c.rng.range(1,4); c.say("parts=%d",parts); size_t cur=0; for(int i=0;i<parts;++i){ auto v=gen(c.rng,c.rng.range(0,8),5); all.insert(all.end(),v.begin(),v.end()); SD x=mk(v); SD::current_type ct; int q=c.rng(3); for(int y=0;y<q;++y) ct.push_back({"r",DI()}); cur+=(size_t)q; d.merge(SD(x.totals(),ct)); }
  auto got=d.totals(); std::map<std::string,std::multiset<std::string>> a,b; for(auto&i:all) a[i.name].insert(fmt("%ld %ld %ld %d %d",i.p,i.s,i.f,i.fail,i.intr)); for(auto&x:got) for(auto&i:x.second) b[x.first].insert(fmt("%ld %ld %ld %d %d",(long)NS(i.get_posted_time().time_since_epoch()).count(),(long)NS(i.get_started_time().time_since_epoch()).count(),(long)NS(i.get_finished_time().time_since_epoch()).count(),i.is_failed(),i.is_interrupted())); if(a!=b) fail_s(K("merge"),"merged diagnostics differ"); if(d.current().size()!=cur) fail_s(K("merge_current"),"running jobs lost in merging"); c.sig(all.size()*10+cur); }
SCENARIO(durations,60,600){ for(int q=0;q<50;++q){ long us=c.rng(3)==0?c.rng(2000):c.rng(2)?c.rng(2000000):(long)c.rng(2000)*1000000+c.rng(3000000); long ns=us*1000+c.rng(1000); std::string s=ba::formatting::format_duration(NS(ns)); 
    // s.mmm.uuu: leading groups only when needed
    std::string e; long S=us/1000000,M=us/1000%1000,U=us%1000; if(S) e=fmt("%ld.%03ld.%03ld",S,M,U); else if(M) e=fmt("%ld.%03ld",M,U); else e=fmt("%ld",U); mon::ev(); if(s!=e) fail_s(K("duration"),fmt("%ld us formatted as %s instead of %s",us,s.c_str(),e.c_str())); c.sig((uint64_t)us); } c.say("d"); 
  for(int q=0;q<20;++q){ ba::formatting::color x{(uint8_t)c.rng(256),(uint8_t)c.rng(256),(uint8_t)c.rng(256)}; if(x.to_hex()!=fmt("#%02x%02x%02x",x.r,x.g,x.b)) fail_s(K("color"),x.to_hex()); } }
// a formatter over several sources with clearing: what it shows against what happened
struct Src { std::vector<It> now; };
template<class C,class A> struct TF : ba::basic_formatter<C,A>{ using ba::basic_formatter<C,A>::format; std::vector<C> cur; std::vector<A> all; std::vector<std::string> nm; std::vector<std::vector<size_t>> qs; std::vector<SD::current_type> run; size_t cnt=0;
  TF(std::vector<ba::scheduler_interface> i):ba::basic_formatter<C,A>(std::move(i)){}
  std::string format(size_t n,std::vector<std::string>&& a,std::vector<std::vector<size_t>>&& q,std::vector<SD::current_type>&& r,std::vector<C>&& c,std::vector<A>&& l) override { cnt=n; nm=a; qs=q; run=r; cur=c; all=l; return "x"; } };
static ba::scheduler_interface si(std::shared_ptr<Src> s,std::string n){ ba::scheduler_interface i; i.name=n; i.get_diagnostics=[s]{ return mk(s->now); }; i.get_queue_sizes=[s]{ return std::vector<size_t>{s->now.size()}; }; i.clear=[s]{ SD d=mk(s->now); s->now.clear(); return d; }; return i; }
SCENARIO(formatter,150,1500){ int ns=c.rng.range(1,3); std::vector<std::shared_ptr<Src>> src; std::vector<ba::scheduler_interface> iv; for(int i=0;i<ns;++i){ src.push_back(std::make_shared<Src>()); iv.push_back(si(src.back(),"s"+std::to_string(i))); }
  TF<ba::summary_diagnostics,ba::summary_diagnostics> f(iv); std::vector<std::vector<It>> cleared_cur((size_t)ns),cleared_all((size_t)ns); std::string ops; int steps=c.rng.range(1,10);
  for(int q=0;q<steps;++q){ int o=c.rng(7); ops+="aafscCr"[o];
    if(o<=1){ int i=c.rng((int)src.size()); auto v=gen(c.rng,c.rng.range(1,5),4); auto& n=src[(size_t)i]->now; n.insert(n.end(),v.begin(),v.end()); }
    else if(o==3){ f.clear_schedulers(); for(size_t i=0;i<src.size();++i){ (void)i; } }
    else if(o==4){ f.clear_current(); for(auto&x:cleared_cur) x.clear(); } else if(o==5){ f.clear_all(); for(auto&x:cleared_cur) x.clear(); for(auto&x:cleared_all) x.clear(); }
    else if(o==6&&src.size()<4){ src.push_back(std::make_shared<Src>()); f.register_scheduler(si(src.back(),"s"+std::to_string(src.size()-1))); cleared_cur.emplace_back(); cleared_all.emplace_back(); }
    if(o==3){ /* handled below: sources were emptied into the formatter */ }
    c.say("ns=%d %s",ns,ops.c_str());
    // reference: remember what each source held before clear_schedulers
    static thread_local std::vector<std::vector<It>> prev; if(q==0) prev.assign(4,{});
    if(o==3) for(size_t i=0;i<src.size();++i){ cleared_cur[i].insert(cleared_cur[i].end(),prev[i].begin(),prev[i].end()); cleared_all[i].insert(cleared_all[i].end(),prev[i].begin(),prev[i].end()); if(!src[i]->now.empty()) fail_s(K("formatter_clear"),"scheduler not cleared"); }
    for(size_t i=0;i<src.size();++i) prev[i]=src[i]->now;
    f.ba::basic_formatter<ba::summary_diagnostics,ba::summary_diagnostics>::format(); if(f.cnt!=src.size()){ fail_s(K("formatter_count"),"wrong number of schedulers"); continue; }
    for(size_t i=0;i<src.size();++i){ auto cv=cleared_cur[i],av=cleared_all[i]; cv.insert(cv.end(),prev[i].begin(),prev[i].end()); av.insert(av.end(),prev[i].begin(),prev[i].end()); cmp_summary(f.cur[i],cv,"formatter_current"); cmp_summary(f.all[i],av,"formatter_all"); if(f.nm[i]!="s"+std::to_string(i)||f.qs[i].size()!=1||f.qs[i][0]!=prev[i].size()) fail_s(K("formatter_meta"),"name or queue sizes wrong"); } }
  c.sig(mon::hstr(ops.c_str())); }
// html: every job name with its counts and durations is in the "All" table
static std::string unesc_html(std::string s){ for(auto&r:std::vector<std::pair<std::string,std::string>>{{"&lt;","<"},{"&gt;",">"},{"&quot;","\""},{"&apos;","'"},{"&#39;","'"},{"&#34;","\""},{"&amp;","&"}}) for(size_t q=0;(q=s.find(r.first,q))!=std::string::npos;++q) s.replace(q,r.first.size(),r.second); return s; }
SCENARIO(html,60,600){ auto s=std::make_shared<Src>(); s->now=gen(c.rng,c.rng.range(0,25),5); c.say("n=%zu",s->now.size()); auto f0=si(s,"sched one"); if(c.rng(2)){ auto v=s->now; auto g=f0.get_diagnostics; f0.get_diagnostics=[g]{ SD d=g(); return SD(d.totals(),SD::current_type{{"running1",DI(tp(1),tp(2),tp(0),false,false,boost::thread::id())},{"",DI()}}); }; }
  ba::html_formatter::parameters pr; pr.include_most_recent=false; pr.timestamps=0; pr.sections=ba::html_formatter::parameters::SHOW_OVERALL|ba::html_formatter::parameters::SHOW_RUNNING; pr.include_histograms=c.rng(2); pr.title="my title"; ba::html_formatter::formatter<> f({f0},pr); f.clear_current(); std::string h=f.ba::basic_formatter<>::format(); auto m=::ref(s->now);
  if(h.find("my title")==std::string::npos||h.find("sched one")==std::string::npos) fail_s(K("html_title"),"title or scheduler name missing"); size_t pos=h.rfind(">All<"); if(pos==std::string::npos) pos=h.rfind("All"); mon::ev((long)m.size());
  for(auto&x:m){ size_t at=std::string::npos; for(size_t q=h.find("<tr class=\"top_level"); q!=std::string::npos; q=h.find("<tr class=\"top_level",q+1)){ size_t e=h.find("</td>",q); size_t b=h.rfind('>',e-1); std::string raw=h.substr(b+1,e-b-1); if(raw.find('<')==std::string::npos&&unesc_html(raw)==x.first){ at=e; } }
    if(at==std::string::npos){ fail_s(K("html_row"),"no row for "+x.first); continue; }
    std::vector<long> v; size_t q=at; for(int i=0;i<25;++i){ q=h.find("data-sort=\"",q); if(q==std::string::npos) break; q+=11; v.push_back(atol(h.c_str()+q)); } if(v.size()!=25){ fail_s(K("html_cells"),"cells missing"); continue; }
    St* b[]={&x.second.sch,&x.second.ok,&x.second.fl,&x.second.in,&x.second.all}; for(int i=0;i<5;++i){ long* w=&v[(size_t)i*5]; if((size_t)w[4]!=b[i]->n) fail_s(K("html_count"),fmt("block %d: count %ld instead of %zu",i,w[4],b[i]->n)); if(w[0]!=b[i]->tot||w[1]!=b[i]->avg()) fail_s(K("html_total"),fmt("block %d: total %ld average %ld",i,w[0],w[1])); if(b[i]->n&&(w[2]!=b[i]->mx||w[3]!=b[i]->mn)) fail_s(K("html_minmax"),fmt("block %d",i)); } }
  c.sig(s->now.size()); }
// real schedulers through scheduler_interface
SCENARIO(interfaces,20,100){ c.chaos(); LSP p=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<AL>>>((size_t)c.rng.range(1,3),std::string("pool")); c.say("x"); int n=c.rng.range(0,10); auto iv=ba::make_scheduler_interfaces(p,p); if(iv.size()!=2||iv[0].name!="pool") fail_s(K("interface_name"),"wrong interfaces"); std::vector<std::future<void>> fu; for(int i=0;i<n;++i) fu.push_back(ba::post_future(p,[i]{ if(i%3==1) throw Ex{i}; },"q")); for(auto&f:fu) try{ f.get(); }catch(Ex&){}
  mon::wait_for([&]{ return in_all(iv[0].get_diagnostics(),"q")==n; },5); ba::html_formatter::formatter<> f(iv); std::string h=f.ba::basic_formatter<>::format(); if(n&&h.find(">q</td>")==std::string::npos) fail_s(K("interface_html"),"job missing"); SD d=iv[1].clear(); if(in_all(d,"q")!=n) fail_s(K("interface_clear"),"clear() returned something else"); if(total(iv[0].get_diagnostics())) fail_s(K("interface_cleared"),"not cleared"); mon::ev(n); 
  auto w=iv[0]; fu.clear(); p=LSP(); f.clear_all(); c.sig((uint64_t)n); }
#endif
