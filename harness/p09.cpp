// P09: direct histories on every queue type: conservation, order, size, leftovers.
#include "pools.hpp"
#include <deque>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
using mon::Case;
struct Item { mon::Token t; int p=-1,s=-1; Item():t(-1){} Item(int a,int b):t(a*100000+b),p(a),s(b){} };
struct Tr { bool fifo=true,lifo=false,size=false,maxs=false,steal=true; int maxp=4,maxc=4; };
static void viol(const char* n,const char* k,std::string m){ mon::fail_s(std::string(k)+":"+n,m); }

template<class Q> struct ISC:std::false_type{}; template<> struct ISC<ba::any_queue_container<Item>>:std::true_type{};
template<class Q> void conc(Case& c,const char* n,Tr tr,std::function<std::shared_ptr<Q>(Case&)> mk,int maxprio=0){
  c.chaos();
  int P=c.rng.range(1,tr.maxp),C=c.rng.range(1,tr.maxc),per=c.rng.range(1,c.rng.p(15)?400:60); bool phased=c.rng.p(30); int popmode=c.rng(4); int left=c.rng.p(30)?c.rng(per*P+1):0;
  c.say("%s conc producers=%d consumers=%d items=%d phased=%d popmode=%d left=%d",n,P,C,per,phased,popmode,left);
  auto q=mk(c); int total=P*per,take=total-left; std::atomic<int> remain{take},go{0}; std::vector<std::vector<std::pair<int,int>>> got(C); std::atomic<bool> abort{false};
  std::vector<std::thread> pr,co; int parties=phased?0:P+C;
  auto sync=[&]{ go.fetch_add(1); while(go.load()<parties) sched_yield(); };
  std::vector<std::vector<int>> prios(P,std::vector<int>(per,0)); if(maxprio) for(auto&v:prios) for(auto&x:v) x=c.rng(maxprio+1);
  auto prod=[&](int p,uint64_t s){ mon::Rng r(s); sync(); for(int i=0;i<per;++i){ mon::jitter(); switch(r(3)){ case 0: q->push(Item(p,i),(size_t)prios[p][i]); break; case 1: if(!maxprio){ q->push(Item(p,i)); break; } [[fallthrough]]; default: { Item it(p,i); if constexpr(ISC<Q>::value) q->push(std::move(it),(size_t)prios[p][i]); else q->push(it,(size_t)prios[p][i]); } } mon::ev(); } };
  auto cons=[&](int k,uint64_t s){ mon::Rng r(s); sync(); int dry=0; while(remain.fetch_sub(1)>0){ Item it; 
      if(popmode==1&&!maxprio) it=q->pop();
      else for(;;){ bool ok=(tr.steal&&(popmode==2||(popmode==3&&r.p(50))))?q->try_steal(it):q->try_pop(it); if(ok) break; if(++dry%64==0) sched_yield(); if(abort.load()) return; }
      mon::ev(); it.t.value(); got[k].push_back({it.p,it.s}); } };
  for(int p=0;p<P;++p) pr.emplace_back(prod,p,c.rng.next());
  if(phased){ for(auto&t:pr) t.join(); pr.clear();
    if(tr.size){ size_t z=0; for(auto x:q->get_queue_size()) z+=x; if(z!=(size_t)total) viol(n,"size",mon::fmt("size %zu after pushing %d",z,total)); }
    if(tr.maxs&&!maxprio){ size_t z=q->get_max_queue_size().at(0); if(z!=(size_t)total) viol(n,"maxsize",mon::fmt("max size %zu after pushing %d",z,total)); } }
  for(int k=0;k<C;++k) co.emplace_back(cons,k,c.rng.next());
  for(auto&t:pr) t.join();
  double t0=mon::now(); std::thread guard([&]{ while(remain.load()>-C&&mon::now()-t0<25) mon::nap_us(2000); if(remain.load()>-C) abort=true; });
  for(auto&t:co) t.join(); guard.join();
  std::map<std::pair<int,int>,int> cnt; long ngot=0; for(auto&g:got){ for(auto&x:g){ ++cnt[x]; ++ngot; if(x.first<0||x.first>=P||x.second<0||x.second>=per) viol(n,"invented","element never pushed was popped"); } 
    if(tr.fifo&&!maxprio){ std::vector<int> last(P,-1); for(auto&x:g) if(x.first>=0&&x.first<P){ if(x.second<=last[x.first]) viol(n,"order",mon::fmt("producer %d: %d after %d",x.first,x.second,last[x.first])); last[x.first]=x.second; } } }
  for(auto&x:cnt) if(x.second>1) viol(n,"duplicate",mon::fmt("element popped %d times",x.second));
  if(ngot!=take) viol(n,"lost",mon::fmt("%ld of %d elements obtained, queue dry",ngot,take));
  if(tr.size){ size_t z=0; for(auto x:q->get_queue_size()) z+=x; if(z!=(size_t)left) viol(n,"size",mon::fmt("size %zu with %d elements inside",z,left)); }
  if(tr.maxs&&!maxprio){ size_t z=q->get_max_queue_size().at(0); if(z>(size_t)total||z<(size_t)left) viol(n,"maxsize",mon::fmt("max size %zu, %d pushed, %d left",z,total,left)); }
  if(c.rng.p(50)){ Item it; for(int i=0;i<left;++i) if(!q->try_pop(it)){ viol(n,"lost",mon::fmt("%d of %d left elements gone",left-i,left)); break; } else ++cnt[{it.p,it.s}];
    if(q->try_pop(it)) viol(n,"invented","empty queue delivered an element"); if((int)cnt.size()!=total) viol(n,"duplicate","an element was delivered twice");
    if(tr.steal&&q->try_steal(it)) viol(n,"invented","empty queue delivered an element to a thief"); }
  uint64_t h=0; for(auto&g:got){ for(auto&x:g) h=mon::mix(h^(x.first*1000+x.second)); h=mon::mix(h+7);} c.sig(h);
  q.reset(); mon::expect_no_live((std::string("leak:")+n).c_str()); }

// sequential history against a model
template<class Q> void seq(Case& c,const char* n,Tr tr,std::function<std::shared_ptr<Q>(Case&)> mk){
  auto q=mk(c); std::deque<int> m; int next=0,ops=c.rng.range(5,c.thorough?600:250); size_t mx=0; int bias=c.rng.range(25,70); uint64_t h=0;
  c.say("%s seq ops=%d pushbias=%d",n,ops,bias);
  for(int i=0;i<ops;++i){ if(c.rng.p(5)) bias=c.rng.range(20,80); mon::ev();
    if(c.rng.p(bias)){ if(c.rng.p(50)) q->push(Item(0,next),0); else { Item it(0,next); q->push(it); } m.push_back(next++); mx=std::max(mx,m.size()); h=mon::mix(h+1); }
    else { Item it; bool st=tr.steal&&c.rng.p(40); bool ok=st?q->try_steal(it):((m.size()&&c.rng.p(20))?(it=q->pop(),true):q->try_pop(it)); h=mon::mix(h+2+ok);
      if(ok!=!m.empty()){ viol(n,ok?"invented":"lost",mon::fmt("op %d: pop returned %d with %zu elements inside",i,ok,m.size())); return; }
      if(ok){ int want=tr.lifo?m.back():m.front(); if(tr.lifo) m.pop_back(); else m.pop_front(); if(it.s!=want||it.t.value()!=want) viol(n,"order",mon::fmt("op %d: got %d, expected %d",i,it.s,want)); } }
    if(tr.size){ auto z=q->get_queue_size(); if(z.size()!=1||z[0]!=m.size()) viol(n,"size",mon::fmt("op %d: size %zd, %zu inside",i,z.size()?(ssize_t)z[0]:-1,m.size())); }
    if(tr.maxs){ auto z=q->get_max_queue_size(); if(z.size()!=1||z[0]!=mx) viol(n,"maxsize",mon::fmt("op %d: max size %zd, really %zu",i,z.size()?(ssize_t)z[0]:-1,mx)); if(c.rng.p(4)){ q->reset_max_queue_size(); if(q->get_max_queue_size().at(0)>m.size()) viol(n,"maxreset","max size not reset"); mx=0; } } }
  c.sig(h); q.reset(); mon::expect_no_live((std::string("leak:")+n).c_str()); }

#define QT(nm,TYPE,tr,...) typedef TYPE nm##_t; static auto nm##_mk(){ return std::function<std::shared_ptr<nm##_t>(Case&)>([](Case& c){ (void)c; return std::make_shared<nm##_t>(__VA_ARGS__); }); } \
 static mon::Reg rc_##nm("conc_" #nm,[](Case& c){ conc<nm##_t>(c,#nm,tr,nm##_mk()); },40,800); static mon::Reg rs_##nm("seq_" #nm,[](Case& c){ seq<nm##_t>(c,#nm,tr,nm##_mk()); },25,600);
static Tr T_fifo, T_fifo_s{true,false,true,false}, T_fifo_sm{true,false,true,true}, T_lifo{false,true}, T_lifo_sm{false,true,true,true}, T_spsc{true,false,false,false,false,1,1}, T_spsc_sm{true,false,true,true,false,1,1};
#define LF(T,...) PARENS(T)
QT(lockfree,ba::lockfree_queue<Item>,T_fifo,(size_t)(c.iter%3?1:64))
typedef ba::lockfree_queue<Item,ba::lockfree_size> QA; typedef ba::lockfree_queue<Item,ba::lockfree_size_max_size> QB; typedef ba::lockfree_stack<Item,ba::lockfree_size_max_size> QC; typedef ba::lockfree_spsc_queue<Item,ba::lockfree_size_max_size> QD;
QT(lockfree_size,QA,T_fifo_s)
QT(lockfree_max,QB,T_fifo_sm)
QT(stack,ba::lockfree_stack<Item>,T_lifo)
QT(stack_max,QC,T_lifo_sm)
QT(spsc,ba::lockfree_spsc_queue<Item>,T_spsc,(size_t)2000)
QT(spsc_max,QD,T_spsc_sm,(size_t)2000)
QT(deque,ba::guarded_deque<Item>,T_fifo_sm)
QT(list,ba::threadsafe_list<Item>,T_fifo)
QT(circular,ba::circular_queue<Item>,T_fifo_s,(size_t)(c.iter%3?(c.iter%5):50))

// any_queue_container against a model of prioritised FIFO queues that can be disabled
typedef ba::any_queue_container<Item> AQ;
template<class Q> ba::any_queue_container_config<Q> cfg(size_t n){ return ba::any_queue_container_config<Q>(n); }
SCENARIO(seq_container,60,1500){
  int a=c.rng.range(1,3),b=c.rng(3); auto q=b?std::make_shared<AQ>(cfg<ba::lockfree_queue<Item,ba::lockfree_size_max_size>>(a),cfg<ba::guarded_deque<Item,0>>(b)):std::make_shared<AQ>(cfg<ba::lockfree_queue<Item,ba::lockfree_size_max_size>>(a));
  int n=a+b; std::vector<std::deque<int>> m(n); std::vector<size_t> mx(n,0); std::vector<bool> en(n,true); int next=0,ops=c.rng.range(20,200); c.say("container %d+%d ops=%d",a,b,ops); uint64_t h=n;
  for(int i=0;i<ops;++i){ mon::ev(); int k=c.rng(100);
    if(k<50){ size_t pos=(size_t)c.rng.range(1,n+2); bool low=c.rng.p(5); if(low) pos=std::numeric_limits<size_t>::max(); int id=next++; size_t idx=std::min<size_t>(pos-1,n-1); m[idx].push_back(id); mx[idx]=std::max(mx[idx],m[idx].size()); q->push(Item(0,id),pos); }
    else if(k<93){ int idx=-1; for(int j=0;j<n&&idx<0;++j) if(en[j]&&!m[j].empty()) idx=j; Item it; bool ok=c.rng.p(30)?q->try_steal(it):(idx>=0&&c.rng.p(30)?(it=q->pop(),true):q->try_pop(it)); h=mon::mix(h+idx);
      if(ok!=(idx>=0)){ viol("container",ok?"invented":"lost","wrong emptiness"); return; }
      if(ok){ if(it.s!=m[idx].front()) viol("container","priority",mon::fmt("got %d instead of %d from queue %d",it.s,m[idx].front(),idx)); 
        for(int j=0;j<n;++j) if(!m[j].empty()&&m[j].front()==it.s){ m[j].pop_front(); break; } } }
    else { int j=c.rng(n); en[j]=c.rng.p(50); q->enable_queue(j+1,en[j]); }
    auto z=q->get_queue_size(),y=q->get_max_queue_size(); if((int)z.size()!=n||(int)y.size()!=n) viol("container","size","wrong number of sizes"); else for(int j=0;j<n;++j){ if(z[j]!=m[j].size()) viol("container","size",mon::fmt("queue %d: size %zu, %zu inside",j,z[j],m[j].size())); if(y[j]!=mx[j]) viol("container","maxsize",mon::fmt("queue %d: max %zu, really %zu",j,y[j],mx[j])); } 
    if(c.rng.p(3)){ q->reset_max_queue_size(); for(auto&x:mx) x=0; } }
  c.sig(h); q.reset(); mon::expect_no_live("leak:container"); }
SCENARIO(conc_container,40,800){ Tr t; t.size=true; conc<AQ>(c,"container",t,[](Case& c){ int a=c.rng.range(1,3); return std::make_shared<AQ>(cfg<ba::lockfree_queue<Item,ba::lockfree_size>>(a),cfg<ba::guarded_deque<Item,0>>(1)); },5); }
