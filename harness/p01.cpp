// P01: every posted job runs exactly once on every scheduler x queue, including the shutdown drain.
#include "pools.hpp"
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#if PART==1
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#elif PART==2
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#elif PART==3
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#elif PART==4
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#endif
using mon::Case;

struct Ledger {
  int n; std::vector<std::atomic<int>> ran, dead; std::vector<std::atomic<int>> order; std::atomic<int> seq{0}, done{0};
  explicit Ledger(int k):n(k),ran(k),dead(k),order(k){ for(int i=0;i<k;++i){ran[i]=0;dead[i]=0;order[i]=-1;} } };
// the posted job: counts invocations, may throw, may be slow
template<class JOB> struct TheJob {
  Ledger* L; int id; mon::Token tok; int kind;
  TheJob(Ledger* l,int i,int k):L(l),id(i),tok(i),kind(k){}
  void operator()(){
    mon::ev(); mon::jitter();
    if(tok.value()!=id) mon::fail("job-corrupt","job %d carries payload %d",id,tok.value());
    L->order[L->seq.fetch_add(1,std::memory_order_relaxed)%L->n].store(id,std::memory_order_relaxed);
    L->ran[id].fetch_add(1,std::memory_order_relaxed);
    if(kind&1) mon::spin(2000);
    if(kind&4) mon::nap_us(50);
    L->done.fetch_add(1,std::memory_order_relaxed);
    if(kind&2){ if(id&1) throw 42; throw std::runtime_error("user error"); } } };

static void check(Ledger& L,const char* pool){
  for(int i=0;i<L.n;++i){ int r=L.ran[i].load();
    if(r==0) mon::fail_s(std::string("lost:")+pool,mon::fmt("job %d of %d never executed",i,L.n));
    else if(r>1) mon::fail_s(std::string("twice:")+pool,mon::fmt("job %d executed %d times",i,r)); }
  uint64_t h=L.n; for(int i=0;i<L.n;++i) h=mon::mix(h^(uint64_t)L.order[i].load()); L.seq=0;
  mon::S().sigs.insert(h); }

// mode bits: wait = all jobs executed before the last proxy goes; else proxies dropped while loaded
// prios: a function giving a priority per job
template<class MK> void exec_case(Case& c,const char* pool,MK mk,int maxw,int maxposters,std::function<size_t(mon::Rng&)> prio,bool children=true){
  c.chaos();
  int w=c.rng.range(1,maxw), posters=c.rng.range(1,maxposters), per=c.rng.range(1,c.rng.p(20)?150:40); bool wait=c.rng.p(40), kids=wait&&children&&c.rng.p(70), block=c.rng.p(40);
  bool backlog=c.rng.p(15)&&children; if(backlog){ posters=1; per=c.rng.range(100,900); wait=kids=false; block=true; }   // everything still queued when the last proxy goes
  int throwp=c.rng.p(50)?15:0; int total=posters*per, kidn=kids?per:0;
  c.say("%s workers=%d posters=%d jobs/poster=%d wait=%d children=%d blocked-start=%d throw%%=%d chaos=%d",pool,w,posters,per,wait,kidn,block,throwp,mon::S().chaos.load());
  Ledger L(total+kidn*posters); int nkids=0; for(int k=total;k<L.n;++k){ if((k-total)%per%2==0) ++nkids; else L.ran[k]=1; }
  { auto sp=mk(w,c);
    typedef typename decltype(sp)::job_type JOB;
    std::atomic<bool> gate{!block};
    if(block) for(int i=0;i<w;++i) sp.post(mkjob<JOB>([&gate]{ while(!gate.load(std::memory_order_acquire)) mon::nap_us(100); }),prio(c.rng));
    std::atomic<int> go{0}; std::vector<std::thread> th;
    for(int p=0;p<posters;++p){ uint64_t s=c.rng.next();
      th.emplace_back([&,p,s,proxy=sp]() mutable { mon::Rng r(s); go.fetch_add(1); while(go.load()<posters) sched_yield();
        for(int i=0;i<per;++i){ int id=p*per+i, kind=(r.p(throwp)?2:0)|(r.p(30)?1:0)|(r.p(5)?4:0); mon::jitter();
          size_t pr=prio(r);
          if(kids&&(i%2==0)){ int kid=total+p*per+i;   // the job posts one more job to its own scheduler
            proxy.post(mkjob<JOB>([j=TheJob<JOB>(&L,id,kind),kid,pr,&L,w=proxy.get_weak_scheduler()]() mutable { auto s=w.lock();
               if(!s.is_valid()) mon::fail("no-scheduler-in-job","job cannot lock its own live scheduler"); else s.post(mkjob<JOB>(TheJob<JOB>(&L,kid,0)),pr);
               j(); }),pr); }
          else if(r.p(10)) proxy.post(mkjob<JOB>(TheJob<JOB>(&L,id,kind))); else proxy.post(mkjob<JOB>(TheJob<JOB>(&L,id,kind)),pr); }
        if(r.p(50)) mon::jitter_lvl(3); }); }
    if(backlog){ for(auto&t:th) t.join(); th.clear(); std::thread t([&]{ mon::nap_us(200+c.iter*37%3000); gate=true; }); { auto keep=std::move(sp); } t.join(); }
    else if(c.rng.p(50)) { if(block&&c.rng.p(50)) gate=true; if(!wait) { auto keep=std::move(sp); if(!gate) { std::thread t([&]{ mon::nap_us(c.iter*37%3000); gate=true;}); for(auto&t2:th) t2.join(); th.clear(); t.join(); } } else gate=true; }
    for(auto&t:th) t.join();
    gate=true;
    if(wait){ int want=total+nkids;
      if(!mon::wait_for([&]{return L.done.load()>=want;},40)) mon::fail_s(std::string("not-executed:")+pool,mon::fmt("%d of %d executions after 40 s on a live scheduler",L.done.load(),want)); }
  }
  check(L,pool);
  mon::expect_no_live((std::string("job-leak:")+pool).c_str());
}
static size_t p0(mon::Rng&){ return 0; }
template<size_t N> static size_t pn(mon::Rng& r){ return r((int)N); }

#define POOL(nm,q,maxw,maxp,prio,expr) static mon::Reg reg_##nm(#nm,[](Case& c){ exec_case(c,#nm,[]([[maybe_unused]] int w,[[maybe_unused]] Case& c){ return expr; },maxw,maxp,prio,strcmp(#nm,"single_spsc")!=0); },q,q*20);
#if PART==1
#define ST(Q) ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>
#define TP(Q) ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<Q>>
typedef ba::lockfree_queue<AC,ba::lockfree_size_max_size> LQS;
POOL(single_lockfree,14,1,4,p0,ST(ba::lockfree_queue<>)())
POOL(single_deque,12,1,4,p0,ST(ba::guarded_deque<>)())
POOL(single_list,12,1,4,p0,ST(ba::threadsafe_list<>)())
POOL(single_stack,12,1,4,p0,ST(ba::lockfree_stack<>)())
POOL(single_circular,12,1,4,p0,ST(ba::circular_queue<>)((size_t)(c.iter%2?4:100)))
POOL(single_spsc,12,1,1,p0,ST(ba::lockfree_spsc_queue<>)((size_t)(c.iter%2?5000:400)))
POOL(tp_lockfree,16,6,5,p0,TP(ba::lockfree_queue<>)((size_t)w,(size_t)(c.iter%2?1:200)))
POOL(tp_lockfree_size,12,6,5,p0,TP(LQS)((size_t)w))
POOL(tp_deque,12,6,5,p0,TP(ba::guarded_deque<>)((size_t)w))
POOL(tp_list,12,6,5,p0,TP(ba::threadsafe_list<>)((size_t)w))
POOL(tp_stack,12,6,5,p0,TP(ba::lockfree_stack<>)((size_t)w))
POOL(tp_circular,12,6,5,p0,TP(ba::circular_queue<>)((size_t)w,(size_t)(c.iter%2?4:100)))
#elif PART==2
static size_t pm(mon::Rng& r){ return 100000u*(size_t)r(4); }
POOL(mq_lockfree,16,6,5,pn<9>,(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)w,(size_t)16)))
POOL(mq_deque,12,6,5,pn<9>,(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::guarded_deque<>,ba::default_find_position<ba::sequential_push_policy>>>((size_t)w)))
POOL(mq_list,12,6,5,p0,(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::threadsafe_list<>>>((size_t)w)))
POOL(smq_deque,16,6,5,pn<9>,(ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::guarded_deque<>,ba::default_find_position<ba::sequential_push_policy>,ba::default_save_cpu_load<>,true>>((size_t)w)))
POOL(smq_lockfree,16,6,5,p0,(ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<>,ba::default_find_position<>,ba::default_save_cpu_load<>,true>>((size_t)w,(size_t)10)))
POOL(multi_thread,16,4,5,pm,(ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<>>>((size_t)w,(size_t)4)))
POOL(multi_thread_deque,12,4,5,pm,(ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::guarded_deque<>>>((size_t)w,(size_t)4)))
POOL(io_lockfree,16,3,5,p0,(ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)w,(size_t)w+(size_t)(c.iter%4))))
POOL(io_deque,12,3,5,p0,(ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::guarded_deque<>>>((size_t)w,(size_t)w+(size_t)(c.iter%4))))
#elif PART==3
static ba::any_queue_container_config<ba::lockfree_queue<>> QL(size_t n){ return ba::any_queue_container_config<ba::lockfree_queue<>>(n); }
static ba::any_queue_container_config<ba::guarded_deque<>> QD(size_t n){ return ba::any_queue_container_config<ba::guarded_deque<>>(n); }
static ba::any_queue_container_config<ba::threadsafe_list<>> QT(size_t n){ return ba::any_queue_container_config<ba::threadsafe_list<>>(n); }
POOL(single_prio,16,1,4,pn<9>,(ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>>>(QL(1),QD(2),QT(3))))
POOL(tp_prio,16,6,5,pn<9>,(ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<>>>((size_t)w,QL(2),QD(1))))
typedef ba::any_queue_container<> AQC;
POOL(mq_prio,12,6,5,pn<9>,(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<AQC>>((size_t)w,QL(1),QL(2))))
typedef ba::stealing_threadpool_scheduler<ba::guarded_deque<>,ba::default_save_cpu_load<>,true> STPI;
typedef ba::stealing_threadpool_scheduler<ba::threadsafe_list<>> STP;
typedef ba::stealing_threadpool_scheduler<ba::lockfree_queue<>> STPL;
typedef ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<>> SMQ;
POOL(steal_tp,14,6,5,p0,(ba::make_shared_scheduler_proxy<STPI>((size_t)w)))
POOL(composite2,14,4,5,pn<4>,(ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(mk_tp(w),mk_tp(1))))
POOL(composite_steal,14,4,5,pn<4>,(ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(ba::make_shared_scheduler_proxy<STP>((size_t)w),ba::make_shared_scheduler_proxy<STPL>((size_t)2),ba::make_shared_scheduler_proxy<SMQ>((size_t)2))))
POOL(composite_nested,12,3,5,pn<4>,(ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<>>>((size_t)w),ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::threadsafe_list<>>>())))
#elif PART==4
typedef ba::any_loggable AL4;
static size_t pa(mon::Rng& r){ return (size_t)r(6); }
POOL(asio,16,5,5,pa,(ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>((size_t)w)))
POOL(tp_loggable,14,5,5,p0,(ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<AL>>>((size_t)w)))
POOL(single_loggable,14,1,5,p0,(ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<AL>>>()))
#endif
