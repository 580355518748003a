// P06: copies and moves of trackable objects, tasks posted to oneself.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
using mon::Case;
namespace {
struct Life { std::atomic<int> alive{1}; bool unspecified=false; };
typedef std::shared_ptr<Life> LP;
struct Op { LP life; int form=0; std::atomic<int> task{0},cb{0}; };
struct Book { std::vector<std::unique_ptr<Op>> ops; std::atomic<int> n{0}; std::vector<boost::thread::id> sched; const char* P; Book(const char* p,int cap):P(p){ for(int i=0;i<cap;++i) ops.push_back(std::make_unique<Op>()); }
  void viol(const char* k,std::string m){ mon::fail_s(std::string(k)+":"+P,m); } bool in_sched(){ return boost::this_thread::get_id()==sched[0]; } };
template<class JOB> struct Obj : ba::trackable_servant<JOB,JOB> { typedef ba::trackable_servant<JOB,JOB> B; Book* b; LP life; mon::Token tok{4};
  Obj(Book* k,ba::any_shared_scheduler_proxy<JOB> w):B(w),b(k),life(std::make_shared<Life>()){}                       // in the current thread's scheduler
  Obj(Obj const& o):B(o),b(o.b),life(std::make_shared<Life>()){}
  Obj(Obj&& o)noexcept:B(std::move(o)),b(o.b),life(std::move(o.life)){}
  Obj& operator=(Obj const& o){ B::operator=(o); life->unspecified=true; life->alive=0; life=std::make_shared<Life>(); return *this; }   // what becomes of the target's old operations is not specified
  ~Obj(){ if(life) life->alive=0; }
  void op(mon::Rng& r){ int id=b->n++; if(id>=(int)b->ops.size()){ b->n=b->ops.size(); return; } Op& o=*b->ops[id]; o.life=life; o.form=r(6); Book* k=b; LP l=life; mon::Token t(id); 
    auto task=[k,id,t]{ if(t.value()!=id) k->viol("corrupt","captured object corrupted"); mon::ev(); k->ops[id]->task++; mon::jitter(); return id; };
    auto done=[k,id,l,t]{ mon::ev(); if(!k->in_sched()) k->viol("thread","executed outside the thread of the servant"); if(!l->alive&&!l->unspecified) k->viol("dead",mon::fmt("%s of a destroyed object executed",k->ops[id]->form<2?"callback":"task posted to itself")); if(k->ops[id]->cb++) k->viol("twice","executed twice"); };
    auto cb=[done,id,k](ba::expected<int> e){ if(e.has_exception()||e.get()!=id) k->viol("result","wrong result"); done(); };
    switch(o.form){ case 0: this->post_callback(std::move(task),std::move(cb)); break; case 1: this->interruptible_post_callback(std::move(task),std::move(cb)); break;
      case 2: this->post_self([done]{ done(); },"self"); break; case 3: { auto x=this->interruptible_post_self([done]{ done(); },"iself"); break; }
      case 4: this->post_self([done]{ done(); return 3; },"selfi"); break; default: { auto x=this->interruptible_post_self([done]{ done(); return std::string("x"); },"iselfs"); } } } };
template<class JOB> struct Host : ba::trackable_servant<JOB,JOB> { Book* b; std::vector<std::unique_ptr<Obj<JOB>>> slots; mon::Rng r; 
  Host(ba::any_weak_scheduler<JOB> w,Book* k,ba::any_shared_scheduler_proxy<JOB> p,uint64_t s):ba::trackable_servant<JOB,JOB>(w,p),b(k),slots(5),r(s){}
  void step(int n){ for(int i=0;i<n;++i){ int a=r(5),z=r(5); auto&A=slots[a]; auto&Z=slots[z]; switch(r(9)){
      case 0: A.reset(new Obj<JOB>(b,this->get_worker())); break; case 1: if(A&&a!=z) Z.reset(new Obj<JOB>(*A)); break; case 2: if(A&&a!=z){ Z.reset(new Obj<JOB>(std::move(*A))); A.reset(); } break;
      case 3: if(r.p(60)) A.reset(); break; case 4: if(A&&Z&&r.p(40)) *Z=*A; break; case 5: if(A){ Obj<JOB> t(*A); if(r.p(50)) t.op(r); } break; default: if(A) for(int k=r.range(1,3);k>0;--k) A->op(r); } mon::jitter(); } }
  void hold(std::atomic<bool>* go){ while(!*go) mon::nap_us(40); }
  int busy(){ int c=0,m=std::min<int>(b->n,b->ops.size()); for(int i=0;i<m;++i){ Op& o=*b->ops[i]; if(o.life&&o.life->alive&&!o.cb) ++c; } return c; }
  void flush(){} };
template<class JOB> struct HP : ba::servant_proxy<HP<JOB>,Host<JOB>,JOB> { typedef typename ba::servant_proxy<HP<JOB>,Host<JOB>,JOB>::callable_type callable_type; template<class S> HP(S s,Book* b,ba::any_shared_scheduler_proxy<JOB> p,uint64_t x):ba::servant_proxy<HP<JOB>,Host<JOB>,JOB>(s,b,p,x){}
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("ctor",0) BOOST_ASYNC_SERVANT_POST_DTOR_LOG("dtor",0) BOOST_ASYNC_POST_MEMBER_LOG(step,"step") BOOST_ASYNC_FUTURE_MEMBER_LOG(busy,"busy") BOOST_ASYNC_FUTURE_MEMBER_LOG(flush,"flush") BOOST_ASYNC_FUTURE_MEMBER_LOG(hold,"hold") };
template<class JOB> void copies(Case& c,const char* name,ba::any_shared_scheduler_proxy<JOB> sched,ba::any_shared_scheduler_proxy<JOB> pool){ c.chaos(); int rounds=c.rng.range(1,12); bool blk=c.rng.p(40); c.say("%s rounds=%d blocked=%d chaos=%d",name,rounds,blk,mon::S().chaos.load()); Book b(name,1200); b.sched=sched.thread_ids(); uint64_t sig=1;
  { std::atomic<bool> gate{!blk},go{true}; if(blk) for(size_t i=0;i<pool.thread_ids().size();++i) pool.post(mkjob<JOB>([&gate]{ while(!gate) mon::nap_us(40); }));
    { HP<JOB> p(sched,&b,pool,c.rng.next()); std::vector<std::future<void>> h; for(int i=0;i<rounds;++i){ if(c.rng.p(20)){ go=false; h.push_back(p.hold(&go)); } p.step(c.rng.range(1,12)); if(c.rng.p(30)) go=true; if(c.rng.p(30)) mon::nap_us(c.rng(300)); } gate=true; go=true; for(auto&x:h) x.wait();
      if(!mon::wait_for([&]{ return p.busy().get()==0; },25)) b.viol("never","operation of a living object never executed"); p.flush().get(); 
      if(c.rng.p(50)){ go=false; h.clear(); if(c.rng.p(50)) h.push_back(p.hold(&go)); p.step(10); } go=true; }                                     // the servant and its objects die with operations pending
    pool.reset(); sched.reset(); }
  int m=std::min<int>(b.n,b.ops.size()); for(int i=0;i<m;++i){ Op& o=*b.ops[i]; if(o.cb>1||o.task>1) b.viol("twice","executed twice"); sig=mon::mix(sig*31+o.form*4+o.cb*2+o.task); } mon::count("operations",m); c.sig(sig); b.ops.clear(); mon::expect_no_live("leak:copies"); }
template<class J> ba::any_shared_scheduler_proxy<J> st(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<J>>>(); }
template<class J> ba::any_shared_scheduler_proxy<J> tpn(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<J>>>((size_t)n); }
}
SCENARIO(copies_tp,100,2500){ copies<AC>(c,"copies_tp",st<AC>(),tpn<AC>(c.rng.range(1,3))); }
SCENARIO(copies_log,60,1500){ copies<AL>(c,"copies_log",st<AL>(),tpn<AL>(c.rng.range(1,3))); }
