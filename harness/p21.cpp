// P21: the asynchronous vector against std::vector: contents, sizes, returned positions and exceptions after every operation, the exact set of live
// elements inside the vector's own memory blocks (a tracking allocator with state), blocks released once with the right size and allocator.
#include "pools.hpp"
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/container/vector.hpp>
#include <boost/asynchronous/container/algorithms.hpp>
#include <unordered_map>
#include <map>
#ifndef PART
#define PART 1
#endif
namespace {
struct Boom : std::runtime_error { Boom():std::runtime_error("boom"){} };
struct Blk { size_t n; int id; size_t bytes; };
struct World {
  std::mutex m; std::unordered_map<const void*,char> live; std::map<uintptr_t,Blk> blocks; long in_blocks=0; long made=0;
  std::atomic<long> armed{-1}; std::atomic<int> kind{0};
  bool in_block(const void* p){ auto it=blocks.upper_bound((uintptr_t)p); if(it==blocks.begin()) return false; --it; return (uintptr_t)p < it->first+it->second.bytes; }
  void born(const void* p,bool may=true){ bool th=false; { std::lock_guard<std::mutex> l(m); bool ib=in_block(p);
      if(ib && may && armed.load()>=0 && armed.fetch_sub(1)==0) th=true;
      if(!th){ ++made; if(!live.emplace(p,ib?1:0).second) mon::fail("lifetime:twice-constructed","an element was constructed where one is alive"); else if(ib) ++in_blocks; } }
    if(th){ mon::count("thrown",1); if(kind.load()) throw 42; throw Boom(); } }
  void died(const void* p){ std::lock_guard<std::mutex> l(m); auto it=live.find(p); if(it==live.end()) { mon::fail("lifetime:not-alive-destroyed","an element was destroyed which was not alive (destroyed twice or never constructed)"); return; }
    if(it->second) --in_blocks; live.erase(it); }
  void used(const void* p,const char* w){ std::lock_guard<std::mutex> l(m); if(!live.count(p)) mon::fail_s(std::string("lifetime:dead-used"),std::string("operation on an element which is not alive: ")+w); }
  void alloc(void* p,size_t n,size_t sz,int id){ std::lock_guard<std::mutex> l(m); if(n) blocks[(uintptr_t)p]=Blk{n,id,n*sz}; }
  void dealloc(void* p,size_t n,int id){ std::lock_guard<std::mutex> l(m); auto it=blocks.find((uintptr_t)p); if(it==blocks.end()){ if(n) mon::fail("memory:not-allocated","memory released which was not allocated (or released twice)"); return; }
    if(it->second.n!=n) mon::fail("memory:size","memory of %zu elements released as %zu",it->second.n,n);
    if(it->second.id!=id) mon::fail("memory:allocator","memory of allocator %d released by allocator %d",it->second.id,id);
    long k=0; for(size_t i=0;i<it->second.bytes;++i) if(live.count((char*)p+i)) { ++k; live.erase((char*)p+i); --in_blocks; }
    if(k) mon::fail("memory:alive","memory released while %ld of its elements are alive",k);
    blocks.erase(it); }
  long here(){ std::lock_guard<std::mutex> l(m); return in_blocks; }
  long nblocks(){ std::lock_guard<std::mutex> l(m); return (long)blocks.size(); }
  long nlive(){ std::lock_guard<std::mutex> l(m); return (long)live.size(); }
  void reset(){ std::lock_guard<std::mutex> l(m); live.clear(); blocks.clear(); in_blocks=0; }
};
World& W(){ static World& w=*new World; return w; }
// allocator with state: using a dead allocator object is visible (id on the heap)
template<class T> struct TA {
  typedef T value_type; std::shared_ptr<int> id;
  explicit TA(int i=0):id(std::make_shared<int>(i)){}
  TA(TA const&)=default; TA& operator=(TA const&)=default;
  template<class U> TA(TA<U> const& o):id(o.id){}
  T* allocate(size_t n){ T* p=(T*)::operator new(n*sizeof(T)+1); W().alloc(p,n,sizeof(T),*id); return p; }
  void deallocate(T* p,size_t n){ W().dealloc(p,n,*id); ::operator delete(p); }
  bool operator==(TA const& o)const{ return *id==*o.id; } bool operator!=(TA const& o)const{ return *id!=*o.id; } };
template<int K> struct Elem { int v; int w=0;
  Elem():v(0){ W().born(this); }
  Elem(int x):v(x){ W().born(this); }
  Elem(int a,int b):v(a*1000+b){ W().born(this); }
  Elem(Elem const& o):v(o.v){ W().used(&o,"copy from"); W().born(this); }
  Elem(Elem&& o) noexcept(K==0):v(o.v){ W().used(&o,"move from"); if(K==0) { born_nt(); } else W().born(this); if(&o!=this) o.v=-7777; }
  Elem& operator=(Elem const& o){ W().used(this,"assign to"); W().used(&o,"assign from"); v=o.v; return *this; }
  Elem& operator=(Elem&& o) noexcept(K==0) { W().used(this,"move-assign to"); W().used(&o,"move-assign from"); if(&o!=this){ v=o.v; o.v=-7777; } return *this; }
  ~Elem(){ W().died(this); }
  void born_nt(){ W().born(this,false); }
  friend bool operator==(Elem const& a,Elem const& b){ W().used(&a,"compare"); W().used(&b,"compare"); return a.v==b.v; }
  friend bool operator<(Elem const& a,Elem const& b){ W().used(&a,"compare"); W().used(&b,"compare"); return a.v<b.v; } };

template<class E,bool FM> struct Rig {
  typedef ba::vector<E,AC,FM,TA<E>> V; typedef std::vector<int> M;
  mon::Case& c; std::vector<SP> pools; std::vector<std::unique_ptr<V>> v; std::vector<M> m; std::vector<char> sched; int nid=1; std::string hist; int val=1; bool ok=true;
  explicit Rig(mon::Case& c_):c(c_){}
  void fail(const char* key,std::string const& what){ ok=false; mon::fail_s(key,what+" after ["+(hist.size()>400?hist.substr(hist.size()-400):hist)+"]"); }
  void verify(const char* op,bool trail=false){
    for(size_t k=0;k<v.size()&&ok;++k){ V& a=*v[k]; M& b=m[k];
      if(a.size()!=b.size()) { fail("size",mon::fmt("%s: size %zu instead of %zu",op,a.size(),b.size())); return; }
      if(a.empty()!=b.empty()) fail("size",mon::fmt("%s: empty() is wrong",op));
      if(a.capacity()<a.size()) fail("capacity",mon::fmt("%s: capacity %zu below size %zu",op,a.capacity(),a.size()));
      if((size_t)(a.end()-a.begin())!=b.size()) { fail("iterators",mon::fmt("%s: end()-begin() is wrong",op)); return; }
      size_t i=0; for(auto it=a.begin();it!=a.end();++it,++i){ if(it->v!=b[i]) { fail("content",mon::fmt("%s: element %zu of %zu is %d instead of %d",op,i,b.size(),it->v,b[i])); return; } }
      mon::ev(b.size()); }
    if(!ok) return;
    long exp=0; for(auto&b:m) exp+=b.size(); if(trail) mon::wait_for([&]{ return W().here()==exp; },10); // the sources of a merge may be released after the result is there
    long h=W().here();
    if(h!=exp) fail("live-in-memory",mon::fmt("%s: %ld elements are alive in the vectors' memory, they hold %ld",op,h,exp)); }
  E* nothing(){ return nullptr; }
  M rnd(size_t n){ M r(n); for(auto&x:r) x=val++; return r; }
  std::vector<E> conv(M const& x){ std::vector<E> r; r.reserve(x.size()); for(int y:x) r.emplace_back(y); return r; }
  size_t rs(){ int k=(int)c.rng.range(0,9); return k<3? c.rng.range(0,3): k<8? c.rng.range(0,40): c.rng.range(40,160); }
  long cut(){ static const long t[]={1,2,5,17,100}; return t[c.rng.range(0,4)]; }
  SP pool(){ return pools[c.rng.range(0,(int)pools.size()-1)]; }
  void create(){
    M x; std::unique_ptr<V> p; char s=1; int id=nid++; TA<E> al(id); int k=(int)c.rng.range(0,10);
    switch(k){
      case 0: p.reset(new V(al)); s=0; break;
      case 1: { size_t n=rs(); int z=val++; x.assign(n,z); p.reset(new V((typename V::size_type)n,E(z),al)); s=0; break; }
      case 2: { x=rnd(rs()); auto e=conv(x); p.reset(new V(e.begin(),e.end(),al)); s=0; break; }
      case 3: { x={val,val+1,val+2}; p.reset(new V({E(val),E(val+1),E(val+2)},al)); val+=3; s=0; break; }
      case 4: { size_t n=rs(); x.assign(n,0); p.reset(new V(pool(),cut(),n,"vec",0,al)); break; }
      case 5: { p.reset(new V(pool(),cut(),"vec",0,al)); break; }
      case 6: { size_t n=rs(); int z=val++; x.assign(n,z); E e(z); p.reset(new V(pool(),cut(),n,e,"vec",0,al)); break; }
      case 7: { x=rnd(rs()); auto e=conv(x); p.reset(new V(pool(),cut(),e.begin(),e.end(),"vec",0,al)); break; }
      case 8: { x={val,val+1,val+2}; p.reset(new V(pool(),cut(),{E(val),E(val+1),E(val+2)},"vec",0,al)); val+=3; break; }
      case 9: if(!v.empty()){ size_t j=c.rng.range(0,(int)v.size()-1); p.reset(new V(*v[j])); x=m[j]; s=sched[j]; break; } // fallthrough
      default: if(!v.empty()){ size_t j=c.rng.range(0,(int)v.size()-1); p.reset(new V(std::move(*v[j]))); x.swap(m[j]); m[j].clear(); s=sched[j]; sched[j]=0; break; }
        p.reset(new V(al)); s=0; }
    hist+=mon::fmt("ctor%d(%zu)%s ",k,x.size(),s?"+":""); v.push_back(std::move(p)); m.push_back(x); sched.push_back(s); c.sig(1000+k); }
  void pos(const char* op,size_t k,typename V::iterator it,size_t exp){ long d=it-v[k]->begin(); if(d!=(long)exp) fail("position",mon::fmt("%s returned position %ld instead of %zu",op,d,exp)); }
  void op(){
    if(v.empty()||(v.size()<3&&c.rng.p(12))) { create(); verify("construction"); return; }
    size_t k=c.rng.range(0,(int)v.size()-1); V& a=*v[k]; M& b=m[k]; size_t n=b.size(); int o=(int)c.rng.range(0,33); c.sig(o*8+(n==0?0:n<11?1:n<40?2:3)*2+sched[k]);
    hist+=mon::fmt("%zu:%d(%zu)%s ",k,o,n,sched[k]?"+":"");
    switch(o){
      case 0: { E e(val); a.push_back(e); b.push_back(val++); break; }
      case 1: { a.push_back(E(val)); b.push_back(val++); break; }
      case 2: if(n){ size_t i=c.rng.range(0,(int)n-1); a.push_back(a[i]); b.push_back(b[i]); } break;
      case 3: { a.emplace_back(val); b.push_back(val++); break; }
      case 4: { int q=(int)c.rng.range(0,9); a.emplace_back(val,q); b.push_back(val*1000+q); ++val; break; }
      case 5: if(n){ a.pop_back(); b.pop_back(); } break;
      case 6: { size_t s=rs(); a.resize(s); b.resize(s); break; }
      case 7: { size_t s=rs(); a.resize(s,E(val)); b.resize(s,val++); break; }
      case 8: { size_t s=rs(); a.reserve(s); if(a.capacity()<s) fail("capacity","reserve did not reserve"); break; }
      case 9: a.shrink_to_fit(); if(a.capacity()!=n) fail("capacity","shrink_to_fit did not shrink"); break;
      case 10: if(c.rng.p(40)){ a.clear(); b.clear(); } break;
      case 11: if(n){ size_t i=c.rng.range(0,(int)n-1); auto it=a.erase(a.cbegin()+i); b.erase(b.begin()+i); pos("erase(pos)",k,it,i); } break;
      case 12: case 13: { size_t i=c.rng.range(0,(int)n), j=c.rng.range((int)i,(int)n); if(c.rng.p(40)) j=std::min(n,i+(size_t)c.rng.range(0,3)); auto it=a.erase(a.cbegin()+i,a.cbegin()+j); b.erase(b.begin()+i,b.begin()+j); if(n||i!=j) pos("erase(range)",k,it,i); break; }
      case 14: { size_t i=c.rng.range(0,(int)n); E e(val); auto it=a.insert(a.cbegin()+i,e); b.insert(b.begin()+i,val++); pos("insert(value)",k,it,i); break; }
      case 15: if(n){ size_t i=c.rng.range(0,(int)n), j=c.rng.range(0,(int)n-1); auto it=a.insert(a.cbegin()+i,a[j]); int q=b[j]; b.insert(b.begin()+i,q); pos("insert(own element)",k,it,i); } break;
      case 16: { size_t i=c.rng.range(0,(int)n), r=rs(); E e(val); auto it=a.insert(a.cbegin()+i,(typename V::size_type)r,e); b.insert(b.begin()+i,r,val++); if(n||r) pos("insert(count)",k,it,i); break; }
      case 17: if(n){ size_t i=c.rng.range(0,(int)n), r=rs(), j=c.rng.range(0,(int)n-1); auto it=a.insert(a.cbegin()+i,(typename V::size_type)r,a[j]); int q=b[j]; b.insert(b.begin()+i,r,q); pos("insert(count, own element)",k,it,i); } break;
      case 18: { size_t i=c.rng.range(0,(int)n); M x=rnd(rs()); auto e=conv(x); auto it=a.insert(a.cbegin()+i,e.begin(),e.end()); b.insert(b.begin()+i,x.begin(),x.end()); if(n||!x.empty()) pos("insert(range)",k,it,i); break; }
      case 19: { size_t i=c.rng.range(0,(int)n); auto it=a.insert(a.cbegin()+i,{E(val),E(val+1)}); b.insert(b.begin()+i,{val,val+1}); val+=2; pos("insert(list)",k,it,i); break; }
      case 20: { size_t i=c.rng.range(0,(int)n); auto it=a.emplace(a.cbegin()+i,val); b.insert(b.begin()+i,val++); pos("emplace",k,it,i); break; }
      case 21: if(n){ size_t i=c.rng.range(0,(int)n), j=c.rng.range(0,(int)n-1); auto it=a.emplace(a.cbegin()+i,a[j]); int q=b[j]; b.insert(b.begin()+i,q); pos("emplace(own element)",k,it,i); } break;
      case 22: { size_t s=rs(); if(!sched[k]) break; a.assign((typename V::size_type)s,E(val)); b.assign(s,val++); break; }
      case 23: { M x=rnd(rs()); auto e=conv(x); a.assign(e.begin(),e.end()); b=x; break; }
      case 24: { a.assign({E(val),E(val+1),E(val+2)}); b={val,val+1,val+2}; val+=3; break; }
      case 25: if(v.size()>1){ size_t j=c.rng.range(0,(int)v.size()-1); if(j!=k){ if(c.rng.p(50)) a.swap(*v[j]); else swap(a,*v[j]); b.swap(m[j]); } } break;
      case 26: { size_t j=c.rng.range(0,(int)v.size()-1); a=*v[j]; if(j!=k){ b=m[j]; sched[k]=sched[j]; } break; }
      case 27: { size_t j=c.rng.range(0,(int)v.size()-1); if(j==k) break; a=std::move(*v[j]); b.swap(m[j]); std::swap(sched[k],sched[j]); // the source is valid but unspecified
          v.erase(v.begin()+j); m.erase(m.begin()+j); sched.erase(sched.begin()+j); break; }
      case 28: { size_t i=n? c.rng.range(0,(int)n-1):0; if(n){ V const& ca=a; if(a.at(i).v!=b[i]||ca.at(i).v!=b[i]||a[i].v!=b[i]||ca[i].v!=b[i]) fail("content","element access");
            if(a.front().v!=b.front()||ca.front().v!=b.front()||a.back().v!=b.back()||ca.back().v!=b.back()) fail("content","front/back"); if(a.data()!=&a[0]||ca.data()!=&a[0]) fail("content","data()"); }
          bool th=false; size_t bad=n+(c.rng.p(50)?0:(size_t)c.rng.range(0,1000)); try{ (void)a.at(bad); } catch(std::out_of_range&){ th=true; } if(!th) fail("at","at() beyond the size did not throw std::out_of_range");
          th=false; try{ V const& ca=a; (void)ca.at(bad); } catch(std::out_of_range&){ th=true; } if(!th) fail("at","at() const beyond the size did not throw std::out_of_range"); break; }
      case 29: { V const& ca=a; M x; for(auto it=ca.rbegin();it!=ca.rend();++it) x.push_back(it->v); M y; for(auto it=a.rbegin();it!=a.rend();++it) y.push_back(it->v); M z; for(auto it=a.crbegin();it!=a.crend();++it) z.push_back(it->v);
          M f; for(auto it=ca.begin();it!=ca.end();++it) f.push_back(it->v); M g; for(auto it=a.cbegin();it!=a.cend();++it) g.push_back(it->v);
          M r(b.rbegin(),b.rend()); if(x!=r||y!=r||z!=r||f!=b||g!=b) fail("iterators","iteration differs"); break; }
      case 30: case 31: { size_t j=c.rng.range(0,(int)v.size()-1); V& d=*v[j]; M& e=m[j];
          std::unique_ptr<V> near; M nm; V* dd=&d; M* em=&e;
          if(c.rng.p(60)){ nm=b; int how=(int)c.rng.range(0,3); if(how==1&&n) nm[c.rng.range(0,(int)n-1)]+=(int)c.rng.range(-1,1); if(how==2&&n) nm.pop_back(); if(how==3) nm.push_back((int)c.rng.range(0,5)); auto ee=conv(nm);
            if(c.rng.p(50)) near.reset(new V(pool(),cut(),ee.begin(),ee.end(),"cmp",0,TA<E>(nid++))); else near.reset(new V(ee.begin(),ee.end(),TA<E>(nid++))); dd=near.get(); em=&nm; }
          bool r1=a==*dd,r2=a!=*dd,r3=a<*dd,r4=a<=*dd,r5=a>*dd,r6=a>=*dd;
          if(r1!=(b==*em)||r2!=(b!=*em)||r3!=(b<*em)||r4!=(b<=*em)||r5!=(b>*em)||r6!=(b>=*em)) fail("comparison",mon::fmt("comparison of vectors of %zu and %zu elements: %d%d%d%d%d%d",n,em->size(),r1,r2,r3,r4,r5,r6)); break; }
      case 32: if(sched[k]){ a.release_scheduler(); sched[k]=0; } else { a.set_scheduler(pool()); a.set_cutoff(cut()); sched[k]=1; } break;
      case 33: if(v.size()>1){ v.erase(v.begin()+k); m.erase(m.begin()+k); sched.erase(sched.begin()+k); } break; }
    verify(mon::fmt("operation %d",o).c_str()); }
  // asynchronous operations: the vector travels through the pool without a scheduler
  template<class F> V through(SP p,F f){ return ba::post_future(p,std::move(f),"async",0).get(); }
  void aop(){
    SP p=pool(); 
    if(v.empty()||(v.size()<4&&c.rng.p(25))){ size_t n=rs(); long cu=cut(); hist+=mon::fmt("make(%zu) ",n); int dep=(int)c.rng.range(0,2); int x=val++,y=val++; M b(n,0);
      std::unique_ptr<V> q;
      if(dep==0) q.reset(new V(through(p,[n,cu]{ return ba::make_asynchronous_range<V,AC>(n,cu,"mk",0); })));
      else if(dep==1){ q.reset(new V(through(p,[n,cu,x,y]{ return ba::async_push_back(ba::async_push_back(ba::make_asynchronous_range<V,AC>(n,cu,"mk",0),E(x)),E(y)); }))); b.push_back(x); b.push_back(y); }
      else { size_t r=rs(), s=rs(); bool sh=c.rng.p(50); 
        if(sh) q.reset(new V(through(p,[n,cu,r,s]{ return ba::async_shrink_to_fit(ba::async_resize(ba::async_reserve(ba::make_asynchronous_range<V,AC>(n,cu,"mk",0),r),s)); }))); 
        else q.reset(new V(through(p,[n,cu,r,s]{ return ba::async_resize(ba::async_reserve(ba::make_asynchronous_range<V,AC>(n,cu,"mk",0),r),s); }))); b.resize(s); }
      v.push_back(std::move(q)); m.push_back(b); sched.push_back(0); c.sig(2000+dep); verify("asynchronous construction",true); return; }
    size_t k=c.rng.range(0,(int)v.size()-1); M& b=m[k]; int o=(int)c.rng.range(0,6); c.sig(3000+o*4+(b.empty()?0:b.size()<11?1:b.size()<40?2:3)); hist+=mon::fmt("%zu:a%d(%zu) ",k,o,b.size());
    if(sched[k]){ v[k]->release_scheduler(); sched[k]=0; } V* a=v[k].get(); std::unique_ptr<V> q;
    switch(o){
      case 0: { int x=val++; q.reset(new V(through(p,[a,x]{ return ba::async_push_back<V,E,AC>(std::move(*a),E(x)); }))); b.push_back(x); break; }
      case 1: case 2: { size_t s=c.rng.p(50)? rs(): b.size()+c.rng.range(0,6); q.reset(new V(through(p,[a,s]{ return ba::async_resize<V,AC>(std::move(*a),s); }))); b.resize(s); break; }
      case 3: { size_t s=rs(); q.reset(new V(through(p,[a,s]{ return ba::async_reserve<V,AC>(std::move(*a),s); }))); if(q->capacity()<s) fail("capacity","async_reserve did not reserve"); break; }
      case 4: { q.reset(new V(through(p,[a]{ return ba::async_shrink_to_fit<V,AC>(std::move(*a)); }))); if(q->capacity()!=b.size()) fail("capacity","async_shrink_to_fit did not shrink"); break; }
      case 5: if(v.size()>1){ size_t j=c.rng.range(0,(int)v.size()-1); if(j==k) return; if(sched[j]){ v[j]->release_scheduler(); sched[j]=0; } V* d=v[j].get();
          q.reset(new V(through(p,[a,d]{ return ba::async_merge_containers<V,AC>(std::move(*a),std::move(*d)); }))); M x=m[j]; b.insert(b.end(),x.begin(),x.end()); v[k]=std::move(q); v.erase(v.begin()+j); m.erase(m.begin()+j); sched.erase(sched.begin()+j); verify("async_merge_containers(2)",true); } return;
      case 6: { auto all=std::make_shared<std::vector<V>>(); M x; for(size_t j=0;j<v.size();++j){ if(sched[j]) v[j]->release_scheduler(); all->push_back(std::move(*v[j])); x.insert(x.end(),m[j].begin(),m[j].end()); } v.clear(); m.clear(); sched.clear();
          q.reset(new V(through(p,[all]{ return ba::async_merge_containers<std::vector<V>,AC>(std::move(*all)); }))); v.push_back(std::move(q)); m.push_back(x); sched.push_back(0); verify("async_merge_containers(n)",true); return; } }
    if(q){ v[k]=std::move(q); } verify(mon::fmt("asynchronous operation %d",o).c_str(),true); }
  // a construction of an element throws: the exception reaches the caller, nothing is left behind, the vector keeps its elements
  void top(){
    W().kind=c.rng.p(30)?1:0; long after=c.rng.range(0,30); bool th=false; int o=(int)c.rng.range(0,11); 
    auto arm=[&]{ W().armed=after; }; auto dis=[&]{ W().armed=-1; };
    hist+=mon::fmt("throw%d/%ld ",o,after);
    auto attempt=[&](auto f){ arm(); try{ f(); } catch(Boom&){ th=true; } catch(int){ th=true; } catch(...){ dis(); throw; } bool left=W().armed.load()>=0; dis(); if(!th&&!left) fail("exception-lost","an element's constructor threw, the operation returned normally"); if(th) mon::count("exceptions_forwarded",1); };
    if(o<6||v.empty()){
      std::unique_ptr<V> q; size_t n=rs(); int z=val++; M x=rnd(n); auto e=conv(x); TA<E> al(nid++); E ez(z); long cu=cut(); SP p=pool(); char s=1;
      switch(o%6){
        case 0: { s=0; x.assign(n,z); attempt([&]{ q.reset(new V((typename V::size_type)n,ez,al)); }); break; }
        case 1: { s=0; attempt([&]{ q.reset(new V(e.begin(),e.end(),al)); }); break; }
        case 2: { x.assign(n,0); attempt([&]{ q.reset(new V(p,cu,n,"vec",0,al)); }); break; }
        case 3: { x.assign(n,z); attempt([&]{ q.reset(new V(p,cu,n,ez,"vec",0,al)); }); break; }
        case 4: { attempt([&]{ q.reset(new V(p,cu,e.begin(),e.end(),"vec",0,al)); }); break; }
        case 5: { if(v.empty()) break; size_t j=c.rng.range(0,(int)v.size()-1); x=m[j]; s=sched[j]; attempt([&]{ q.reset(new V(*v[j])); }); break; } }
      if(q){ if(v.size()<3){ v.push_back(std::move(q)); m.push_back(x); sched.push_back(s); } else q.reset(); } 
    } else {
      size_t k=c.rng.range(0,(int)v.size()-1); V& a=*v[k]; M& b=m[k]; size_t n=b.size(); size_t cap=a.capacity(); E e(val); int z=val++; 
      if(o==6||o==7) { if(c.rng.p(60)) { a.shrink_to_fit(); } after=c.rng.range(0,(int)(2*n+2)); }
      switch(o){
        case 6: attempt([&]{ a.push_back(e); }); if(!th) b.push_back(z); break;
        case 7: attempt([&]{ a.emplace_back(z); }); if(!th) b.push_back(z); break;
        case 8: { size_t s=cap+c.rng.range(1,40); attempt([&]{ a.reserve(s); }); break; }
        case 9: { size_t s=n+c.rng.range(1,60); attempt([&]{ a.resize(s,e); }); if(!th) b.resize(s,z); break; }
        case 10: attempt([&]{ a.shrink_to_fit(); }); break;
        case 11: { size_t s=n+c.rng.range(1,60); attempt([&]{ a.resize(s); }); if(!th) b.resize(s); break; } } }
    c.sig(4000+o*2+th); verify("an operation whose element construction may throw"); }
  // asynchronous factory and resizing with a throwing construction
  void atop(){
    long after=c.rng.range(0,30); bool th=false; SP p=pool(); size_t n=rs(); long cu=cut(); W().kind=0; hist+=mon::fmt("athrow/%ld ",after); std::unique_ptr<V> q;
    W().armed=after; try{ q.reset(new V(through(p,[n,cu]{ return ba::make_asynchronous_range<V,AC>(n,cu,"mk",0); }))); } catch(Boom&){ th=true; } catch(...){ W().armed=-1; throw; } bool left=W().armed.load()>=0; W().armed=-1;
    if(!th&&!left) fail("exception-lost","make_asynchronous_range: an element's constructor threw, the future has a value");
    if(q&&v.size()<4){ v.push_back(std::move(q)); m.push_back(M(n,0)); sched.push_back(0); } else q.reset();
    if(th) mon::count("exceptions_forwarded",1); c.sig(5000+th);
    if(!mon::wait_for([&]{ long exp=0; for(auto&b:m) exp+=b.size(); return W().here()==exp; },10)) verify("make_asynchronous_range",true); }
  void run(int mode){
    W().reset(); W().armed=-1;
    { int np=(int)c.rng.range(1,2); for(int i=0;i<np;++i) pools.push_back(mk_tp((int)c.rng.range(1,6))); }
    int steps=(int)c.rng.range(10,45);
    for(int i=0;i<steps&&ok;++i){ if(mode==0) op(); else if(mode==1) { if(c.rng.p(75)||v.empty()) aop(); else op(); } else { if(v.empty()) create(); else if(c.rng.p(50)) top(); else if(c.rng.p(12)) atop(); else op(); } mon::count("operations",1); }
    v.clear(); pools.clear();
    if(ok){ if(!mon::wait_for([]{ return W().nblocks()==0; },20)) fail("memory:leak",mon::fmt("%ld blocks were never released",W().nblocks()));
      if(!mon::wait_for([]{ return W().nlive()==0; },20)) fail("lifetime:leak",mon::fmt("%ld elements were never destroyed",W().nlive())); }
    if(c.iter%40==0) c.say("%s",hist.c_str()); }
};
#if PART==1
static mon::Reg r1("vec_ops_nt",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<0>,false>(c).run(0); },60,1200);
static mon::Reg r2("vec_async_nt",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<0>,false>(c).run(1); },60,1200);
static mon::Reg r3("vec_throw_nt",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<0>,false>(c).run(2); },60,1200);
#elif PART==2
static mon::Reg r1("vec_ops_cp",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<1>,false>(c).run(0); },60,1200);
static mon::Reg r2("vec_async_cp",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<1>,false>(c).run(1); },60,1200);
static mon::Reg r3("vec_throw_cp",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<1>,false>(c).run(2); },60,1200);
#else
static mon::Reg r1("vec_ops_fm",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<1>,true>(c).run(0); },60,1200);
static mon::Reg r2("vec_async_fm",[](mon::Case& c){ if(c.rng.p(40)) c.chaos(); Rig<Elem<0>,true>(c).run(1); },60,1200);
#endif
}
