// P15: parallel modifying algorithms against their sequential counterparts; user function once per element, nothing else written.
#include "alg.hpp"
#if PART==1
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#elif PART==2
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#elif PART==3
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_move_if_noexcept.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#elif PART==4
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#elif PART==5
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#endif
// visits each element exactly once: adds to the tag
struct Inc : Fn { using Fn::Fn; void operator()(E& e) const { e.use(); hit(); e.id+=100000; } };
struct IncC : Fn { std::vector<std::atomic<int>>* h=nullptr; using Fn::Fn; void operator()(E const& e) const { e.use(); hit(); if(h) (*h)[e.id].fetch_add(1,std::memory_order_relaxed); } };
inline Snap plus(Snap s,int d=100000){ for(auto&e:s) e.second+=d; return s; }
static void once(Ctx& cx,long n,const char* alg,const char* form,std::string const& in){ if(!cx.thrown&&cx.calls!=n) mon::fail_s(std::string("calls:")+alg+":"+form,mon::fmt("user function called %ld times for %ld elements: ",cx.calls.load(),n)+in); }
#if PART==1
struct Inc2 : Fn { using Fn::Fn; void operator()(VE::iterator b,VE::iterator e) const { for(;b!=e;++b){ b->use(); hit(); b->id+=100000; } } };
struct IncI : Fn { std::vector<std::atomic<int>>* h; IncI(std::shared_ptr<Ctx> x,std::vector<std::atomic<int>>* y):Fn(x),h(y){} void operator()(int i) const { hit(); if(i<0||i>=(int)h->size()) mon::fail("index:for:int","called with an index outside the range"); else (*h)[i].fetch_add(1,std::memory_order_relaxed); } };
SCENARIO(for_,700,8000){ HEAD INIT
  Snap want=plus(snap(v)); const char* form="?"; int expect=n;
  switch(c.rng(8)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_for(v.begin(),v.end(),Inc(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snap(v),want,"for",form,in); break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_for(std::move(v),Inc(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snap(*o.val),want,"for",form,in); break; }
   case 2: { form="const-range"; std::vector<std::atomic<int>> h(n+1); IncC f(cx); f.h=&h; VE const& cv=v; auto o=run<void>(p,[&]{return ba::parallel_for(cv,f,cut);}); if(chk_done(o,KEY("for",form),in)) for(int i=0;i<n;++i) if(!chk(h[i]==1,"visits","for",form,in)) break; break; }
   case 3: { form="cont"; VE v2=v; auto o=run<VE>(p,[&]{return ba::parallel_for(AS_CONT(v2),Inc(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snap(*o.val),want,"for",form,in); break; }
   case 4: { form="list"; std::list<E> l(v.begin(),v.end()); auto o=run<void>(p,[&]{return ba::parallel_for(l.begin(),l.end(),Inc(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snapr(l),want,"for",form,in); break; }
   case 5: { form="sub-range"; int a=c.rng(n+1),b=a+c.rng(n-a+1); for(int i=0;i<n;++i) if(i<a||i>=b) want[i].second-=100000; expect=b-a; auto o=run<void>(p,[&]{return ba::parallel_for(v.begin()+a,v.begin()+b,Inc(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snap(v),want,"for",form,in); break; }
   case 6: { form="two-iterators"; auto o=run<void>(p,[&]{return ba::parallel_for(v.begin(),v.end(),Inc2(cx),cut);}); if(chk_done(o,KEY("for",form),in)) eqv(snap(v),want,"for",form,in); break; }
   case 7: { form="int"; std::vector<std::atomic<int>> h(n+1); int lo=c.rng(n+1); expect=n-lo; auto o=run<void>(p,[&]{return ba::parallel_for(lo,n,IncI(cx,&h),cut);}); if(chk_done(o,KEY("for",form),in)) for(int i=0;i<n;++i) if(!chk(h[i]==(i>=lo),"visits","for",form,in)) break; break; } }
  once(*cx,expect,"for",form,in); c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
struct Sum : Fn { std::shared_ptr<std::vector<int>> ids=std::make_shared<std::vector<int>>(); Sum(std::shared_ptr<Ctx> x):Fn(std::move(x)){} Sum(Sum const& o):Fn(o),ids(std::make_shared<std::vector<int>>(*o.ids)){} Sum(Sum&& o)=default; Sum& operator=(Sum&&)=default; Sum& operator=(Sum const& o){ if(this!=&o){ Fn::operator=(o); ids=std::make_shared<std::vector<int>>(*o.ids);} return *this; }
  void operator()(E const& e){ e.use(); hit(); ids->push_back(e.id); } void merge(Sum const& o){ ids->insert(ids->end(),o.ids->begin(),o.ids->end()); } };
SCENARIO(for_each,600,6000){ HEAD INIT Snap s0=snap(v); std::list<E> l(v.begin(),v.end()); const char* form="iter"; Out<Sum> o; Sum f(cx);
  if(c.rng.p(70)) o=run<Sum>(p,[&]{return ba::parallel_for_each(v.begin(),v.end(),f,cut);}); else { form="list"; o=run<Sum>(p,[&]{return ba::parallel_for_each(l.begin(),l.end(),f,cut);}); }
  if(chk_done(o,KEY("for_each",form),in)){ eqv(snap(v),s0,"for_each",form,in); once(*cx,n,"for_each",form,in); std::vector<int>& ids=*o.val->ids; if((int)ids.size()!=n) mon::fail_s(KEY("result:for_each",form),mon::fmt("the merged functor saw %d elements: ",(int)ids.size())+in); else for(int i=0;i<n;++i) if(ids[i]!=i){ mon::fail_s(KEY("result:for_each",form),"functors merged in a different order than the range: "+in); break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
#elif PART==2
struct T1 : Fn { using Fn::Fn; E operator()(E const& e) const { e.use(); hit(); return E(e.k*2+1,e.id+7); } };
struct T2 : Fn { using Fn::Fn; E operator()(E const& x,E const& y) const { x.use(); y.use(); hit(); return E(x.k*3+y.k,x.id*1000+y.id); } };
struct T3 : Fn { using Fn::Fn; E operator()(E const& x,E const& y,E const& z) const { x.use(); y.use(); z.use(); hit(); return E(x.k*3+y.k*5+z.k,x.id+y.id*3+z.id*11); } };
SCENARIO(transform1,700,8000){ HEAD INIT Snap s0=snap(v),want; for(auto&e:s0) want.emplace_back(e.first*2+1,e.second+7); Dest d(n); std::list<E> l(v.begin(),v.end()); T1 f(cx); const char* form="?"; Out<VE::iterator> o; bool inpl=false;
  switch(c.rng(5)){ case 0: form="iter"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(v.begin(),v.end(),d.b(),f,cut);}); break;
   case 1: form="range"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(v,d.b(),f,cut);}); break;
   case 2: form="list"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(l.begin(),l.end(),d.b(),f,cut);}); break;
   case 3: form="in-place"; inpl=true; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(v.begin(),v.end(),v.begin(),f,cut);}); break;
   case 4: form="to-list"; { std::list<E> t(n); auto o2=run<std::list<E>::iterator>(p,[&]{return ba::parallel_transform(v.begin(),v.end(),t.begin(),f,cut);}); if(chk_done(o2,KEY("transform1",form),in)){ eqv(snapr(t),want,"transform1",form,in); chk(*o2.val==t.end(),"iterator","transform1",form,in); once(*cx,n,"transform1",form,in); } c.sig(mon::hstr(in.c_str())); return; } }
  if(chk_done(o,KEY("transform1",form),in)){ once(*cx,n,"transform1",form,in); if(inpl){ eqv(snap(v),want,"transform1",form,in); chk(*o.val==v.end(),"iterator","transform1",form,in); } else { d.check("transform1",form,in,want); eqv(snap(v),s0,"transform1-input",form,in); chk(*o.val==d.e(),"iterator","transform1",form,in); } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(transform2,700,8000){ HEAD INIT VE q=gen(c.rng,n); Snap s0=snap(v),s1=snap(q),want; for(int i=0;i<n;++i) want.emplace_back(s0[i].first*3+s1[i].first,s0[i].second*1000+s1[i].second); Dest d(n); std::list<E> l(q.begin(),q.end()); T2 f(cx); const char* form="?"; Out<VE::iterator> o;
  switch(c.rng(5)){ case 0: form="iter"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(v.begin(),v.end(),q.begin(),d.b(),f,cut);}); break;
   case 1: form="range"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform(v,q,d.b(),f,cut);}); break;
   case 2: form="list-first"; { std::list<E> l1(v.begin(),v.end()); o=run<VE::iterator>(p,[&]{return ba::parallel_transform(l1.begin(),l1.end(),q.begin(),d.b(),f,cut);}); } break;
   case 3: form="any2"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform<VE::iterator,T2,BOOST_ASYNCHRONOUS_DEFAULT_JOB,VE::iterator,VE::iterator>(d.b(),f,v.begin(),v.end(),q.begin(),cut);}); break;
   case 4: form="any2-list"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform<VE::iterator,T2,BOOST_ASYNCHRONOUS_DEFAULT_JOB,VE::iterator,std::list<E>::iterator>(d.b(),f,v.begin(),v.end(),l.begin(),cut);}); break; }
  if(chk_done(o,KEY("transform2",form),in)){ once(*cx,n,"transform2",form,in); d.check("transform2",form,in,want); eqv(snap(v),s0,"transform2-input",form,in); eqv(snap(q),s1,"transform2-input",form,in); chk(*o.val==d.e(),"iterator","transform2",form,in); }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(transform3,600,4000){ HEAD INIT VE q=gen(c.rng,n),r=gen(c.rng,n); Snap a=snap(v),b=snap(q),z=snap(r),want; for(int i=0;i<n;++i) want.emplace_back(a[i].first*3+b[i].first*5+z[i].first,a[i].second+b[i].second*3+z[i].second*11); Dest d(n); T3 f(cx); const char* form="?"; Out<VE::iterator> o;
  switch(c.rng(2)){ case 0: form="any3"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform<VE::iterator,T3,BOOST_ASYNCHRONOUS_DEFAULT_JOB,VE::iterator,VE::iterator,VE::iterator>(d.b(),f,v.begin(),v.end(),q.begin(),r.begin(),cut);}); break;
   case 1: form="any3-range"; o=run<VE::iterator>(p,[&]{return ba::parallel_transform<VE::iterator,T3,BOOST_ASYNCHRONOUS_DEFAULT_JOB,VE,VE,VE>(d.b(),f,v,q,r,cut);}); break; }
  if(chk_done(o,KEY("transform3",form),in)){ once(*cx,n,"transform3",form,in); d.check("transform3",form,in,want); chk(*o.val==d.e(),"iterator","transform3",form,in); }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
#elif PART==3
SCENARIO(copy,600,6000){ HEAD INIT Snap s0=snap(v); Dest d(n); std::list<E> l(v.begin(),v.end()); const char* form="?";
  switch(c.rng(4)){ case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_copy(v.begin(),v.end(),d.b(),cut);}); if(chk_done(o,KEY("copy",form),in)){ d.check("copy",form,in,s0); eqv(snap(v),s0,"copy-input",form,in); } break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_copy(std::move(v),d.b(),cut);}); if(chk_done(o,KEY("copy",form),in)){ d.check("copy",form,in,s0); eqv(snap(*o.val),s0,"copy-input",form,in); } break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_copy(AS_CONT(v),d.b(),cut);}); if(chk_done(o,KEY("copy",form),in)){ d.check("copy",form,in,s0); eqv(snap(*o.val),s0,"copy-input",form,in); } break; }
   case 3: { form="list"; auto o=run<void>(p,[&]{return ba::parallel_copy(l.begin(),l.end(),d.b(),cut);}); if(chk_done(o,KEY("copy",form),in)) d.check("copy",form,in,s0); break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(move,600,6000){ HEAD INIT Snap s0=snap(v); Dest d(n); std::list<E> l(v.begin(),v.end()); const char* form="?";
  switch(c.rng(5)){ case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_move(v.begin(),v.end(),d.b(),cut);}); if(chk_done(o,KEY("move",form),in)){ d.check("move",form,in,s0); for(auto&e:v) if(!chk(e.moved,"not-moved","move",form,in)) break; } break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_move(std::move(v),d.b(),cut);}); if(chk_done(o,KEY("move",form),in)){ d.check("move",form,in,s0); chk((int)o.val->size()==n,"size","move",form,in); } break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_move(AS_CONT(v),d.b(),cut);}); if(chk_done(o,KEY("move",form),in)){ d.check("move",form,in,s0); chk((int)o.val->size()==n,"size","move",form,in); } break; }
   case 3: { form="list"; auto o=run<void>(p,[&]{return ba::parallel_move(l.begin(),l.end(),d.b(),cut);}); if(chk_done(o,KEY("move",form),in)) d.check("move",form,in,s0); break; }
   case 4: { form="if_noexcept"; auto o=run<void>(p,[&]{return ba::parallel_move_if_noexcept(v.begin(),v.end(),d.b(),cut);}); if(chk_done(o,KEY("move",form),in)) d.check("move",form,in,s0); break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(copy_if,600,8000){ HEAD int a=n?v[c.rng(n)].k:3,mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str());
  Snap s0=snap(v),yes,no,neq; for(auto&e:s0){ (Pred::t(mode,a,e.first)?yes:no).push_back(e); if(e.first!=a) neq.push_back(e); } Dest d(n); const char* alg="?"; Out<VE::iterator> o; Snap* want=&yes; std::list<E> l(v.begin(),v.end()); E val(a,0); const char* form="iter";
  switch(c.rng(5)){ case 0: alg="copy_if"; o=run<VE::iterator>(p,[&]{return ba::parallel_copy_if(v.begin(),v.end(),d.b(),f,cut);}); break;
   case 1: alg="copy_if"; form="list"; o=run<VE::iterator>(p,[&]{return ba::parallel_copy_if(l.begin(),l.end(),d.b(),f,cut);}); break;
   case 2: alg="remove_copy_if"; want=&no; o=run<VE::iterator>(p,[&]{return ba::parallel_remove_copy_if(v.begin(),v.end(),d.b(),f,cut);}); break;
   case 3: alg="remove_copy"; want=&neq; o=run<VE::iterator>(p,[&]{return ba::parallel_remove_copy(v.begin(),v.end(),d.b(),val,cut);}); break;
   case 4: alg="copy_if"; form="exact-size"; { VE x(yes.size()); x.shrink_to_fit(); o=run<VE::iterator>(p,[&]{return ba::parallel_copy_if(v.begin(),v.end(),x.begin(),f,cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(x),yes,alg,form,in); chk(*o.val==x.end(),"iterator",alg,form,in); } c.sig(mon::hstr(in.c_str())); return; } }
  if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,*want); eqv(snap(v),s0,alg,"input",in); if(!chk(*o.val==d.b()+want->size(),"iterator",alg,form,in)){} }
  c.sig(mon::hstr(in.c_str())+mon::hstr(alg)); }
struct Gen : Fn { using Fn::Fn; E operator()() const { hit(); return E(42,a); } };
SCENARIO(fill_generate,600,8000){ HEAD INIT const char *alg="fill",*form="?"; E val(9,77); Gen g(cx,78); Dest d(n); VE v2=v; Snap fw(n,{9,77}),gw(n,{42,78});
  int which=c.rng(2); if(which) alg="generate"; Snap& want=which?gw:fw;
  if(!which) switch(c.rng(4)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_fill(d.b(),d.e(),val,cut);}); if(chk_done(o,KEY(alg,form),in)) d.check(alg,form,in,want); break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_fill(std::move(v),val,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_fill(AS_CONT(v),val,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 3: { form="list"; std::list<E> l(v.begin(),v.end()); auto o=run<void>(p,[&]{return ba::parallel_fill(l.begin(),l.end(),val,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snapr(l),want,alg,form,in); break; } }
  else { switch(c.rng(4)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_generate(d.b(),d.e(),g,cut);}); if(chk_done(o,KEY(alg,form),in)) d.check(alg,form,in,want); break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_generate(std::move(v),g,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_generate(AS_CONT(v),g,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 3: { form="list"; std::list<E> l(v.begin(),v.end()); auto o=run<void>(p,[&]{return ba::parallel_generate(l.begin(),l.end(),g,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snapr(l),want,alg,form,in); break; } }
   once(*cx,n,alg,form,in); }
  c.sig(mon::hstr(in.c_str())+mon::hstr(alg)+mon::hstr(form)); }
#elif PART==4
SCENARIO(replace,300,8000){ HEAD int a=n?v[c.rng(n)].k:3,mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str()); E ov(a,0),nv(-3,88); const char *alg="replace",*form="?"; std::list<E> l(v.begin(),v.end()); Dest d(n);
  Snap s0=snap(v),wi=s0,wv=s0; for(auto&e:wi) if(Pred::t(mode,a,e.first)) e={-3,88}; for(auto&e:wv) if(e.first==a) e={-3,88};
  switch(c.rng(11)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_replace(v.begin(),v.end(),ov,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(v),wv,alg,form,in); break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_replace(std::move(v),ov,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),wv,alg,form,in); break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_replace(AS_CONT(v),ov,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),wv,alg,form,in); break; }
   case 3: { alg="replace_if"; form="iter"; auto o=run<void>(p,[&]{return ba::parallel_replace_if(v.begin(),v.end(),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(v),wi,alg,form,in); break; }
   case 4: { alg="replace_if"; form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_replace_if(std::move(v),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),wi,alg,form,in); break; }
   case 5: { alg="replace_if"; form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_replace_if(AS_CONT(v),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),wi,alg,form,in); break; }
   case 6: { alg="replace_if"; form="list"; auto o=run<void>(p,[&]{return ba::parallel_replace_if(l.begin(),l.end(),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snapr(l),wi,alg,form,in); break; }
   case 7: { alg="replace_copy"; form="iter"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_replace_copy(v.begin(),v.end(),d.b(),ov,nv,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,wv); eqv(snap(v),s0,alg,"input",in); chk(*o.val==d.e(),"iterator",alg,form,in); } break; }
   case 8: { alg="replace_copy"; form="cont"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_replace_copy(AS_CONT(v),d.b(),ov,nv,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,wv); chk(*o.val==d.e(),"iterator",alg,form,in); } break; }
   case 9: { alg="replace_copy_if"; form="iter"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_replace_copy_if(v.begin(),v.end(),d.b(),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,wi); eqv(snap(v),s0,alg,"input",in); chk(*o.val==d.e(),"iterator",alg,form,in); } break; }
   case 10: { alg="replace_copy_if"; form="cont"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_replace_copy_if(AS_CONT(v),d.b(),f,nv,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,wi); chk(*o.val==d.e(),"iterator",alg,form,in); } break; } }
  if(std::string(alg).find("_if")!=std::string::npos) once(*cx,n,alg,form,in);
  c.sig(mon::hstr(in.c_str())+mon::hstr(alg)+mon::hstr(form)); }
SCENARIO(reverse,600,8000){ HEAD INIT Snap want=snap(v); std::reverse(want.begin(),want.end()); const char *alg="reverse",*form="?";
  switch(c.rng(5)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_reverse(v.begin(),v.end(),cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(v),want,alg,form,in); break; }
   case 1: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_reverse(std::move(v),cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 2: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_reverse(AS_CONT(v),cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),want,alg,form,in); break; }
   case 3: { form="list"; std::list<E> l(v.begin(),v.end()); auto o=run<void>(p,[&]{return ba::parallel_reverse(l.begin(),l.end(),cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snapr(l),want,alg,form,in); break; }
   case 4: { form="sub-range"; int a=c.rng(n+1),b=a+c.rng(n-a+1); want=snap(v); std::reverse(want.begin()+a,want.begin()+b); auto o=run<void>(p,[&]{return ba::parallel_reverse(v.begin()+a,v.begin()+b,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(v),want,alg,form,in); break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(swap_ranges,600,6000){ HEAD INIT Dest d(n); for(int i=0;i<n;++i) d.v[Dest::G+i].k=5000+i; Snap s0=snap(v),s1; for(int i=0;i<n;++i) s1.emplace_back(5000+i,d.v[Dest::G+i].id); const char *alg="swap_ranges",*form="iter";
  if(c.rng.p(70)){ auto o=run<VE::iterator>(p,[&]{return ba::parallel_swap_ranges(v.begin(),v.end(),d.b(),cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,s0); eqv(snap(v),s1,alg,form,in); chk(*o.val==d.e(),"iterator",alg,form,in); } }
  else { form="list"; std::list<E> l(v.begin(),v.end()); auto o=run<VE::iterator>(p,[&]{return ba::parallel_swap_ranges(l.begin(),l.end(),d.b(),cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,s0); eqv(snapr(l),s1,alg,form,in); chk(*o.val==d.e(),"iterator",alg,form,in); } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(iota,600,6000){ HEAD INIT const char *alg="iota"; std::vector<int> x(n+12,-7),want(n); int s=c.rng.range(-50,1000); std::iota(want.begin(),want.end(),s);
  if(c.rng.p(60)){ auto o=run<void>(p,[&]{return ba::parallel_iota(x.begin()+6,x.begin()+6+n,s,cut);}); if(chk_done(o,KEY(alg,"iter"),in)){ bool g=true; for(int i=0;i<n+12;++i) g=g&&x[i]==(i>=6&&i<6+n?want[i-6]:-7); chk(g,"result",alg,"iter",in); } }
  else { std::vector<int> y(n); auto o=run<std::vector<int>>(p,[&]{return ba::parallel_iota(std::move(y),s,cut);}); if(chk_done(o,KEY(alg,"moved"),in)) chk(*o.val==want,"result",alg,"moved",in); }
  c.sig(mon::hstr(in.c_str())); }
#elif PART==5
// grouped: f is called per element or per sub-range of the sorted input, a group (equivalent elements) is never split between two sub-ranges
static VE sorted(VE v){ std::sort(v.begin(),v.end(),[](E const&x,E const&y){return x.k<y.k;}); for(size_t i=0;i<v.size();++i) v[i].id=(int)i; return v; }
struct Rec { std::mutex m; std::vector<std::pair<int,int>> r; };
struct Comp : Fn { using Fn::Fn; bool operator()(E const& x,E const& y) const { x.use(); y.use(); if(!c) mon::fail("functor:moved-from","a moved-from comparison is called"); return x.k<y.k; } };
struct G2 : Fn { Rec* r; G2(std::shared_ptr<Ctx> x,Rec* y):Fn(x),r(y){} void operator()(VE::iterator b,VE::iterator e) const { hit(); if(b!=e){ std::lock_guard<std::mutex> l(r->m); r->r.emplace_back(b->id,(int)(e-b)); } } };
struct GT : Fn { Rec* r; GT(std::shared_ptr<Ctx> x,Rec* y):Fn(x),r(y){} void operator()(VE::iterator b,VE::iterator e,VE::iterator o) const { hit(); if(b!=e){ { std::lock_guard<std::mutex> l(r->m); r->r.emplace_back(b->id,(int)(e-b)); } for(;b!=e;++b,++o) *o=E(b->k+1,b->id+3); } } };
struct G1 : Fn { using Fn::Fn; E operator()(E const& e) const { e.use(); hit(); return E(e.k+1,e.id+3); } };
struct GI : Fn { using Fn::Fn; void operator()(E& e) const { e.use(); hit(); e.id+=100000; } };
static void part(Rec& r,VE const& v,const char* alg,const char* form,std::string const& in){ std::sort(r.r.begin(),r.r.end()); int at=0; for(auto&x:r.r){ if(x.first!=at){ mon::fail_s(KEY("partition:",alg),std::string(form)+": sub-ranges do not partition the range: "+in); return; } if(at&&v[at].k==v[at-1].k){ mon::fail_s(std::string("group-split:")+alg+":"+form,"a group is split between two sub-ranges: "+in); return; } at+=x.second; } if(at!=(int)v.size()) mon::fail_s(KEY("partition:",alg),std::string(form)+": elements not covered: "+in); }
SCENARIO(grouped_for,600,8000){ HEAD v=sorted(std::move(v)); INIT const char *alg="grouped_for",*form="?"; Snap want=plus(snap(v)); Rec r; VE ref=v;
  switch(c.rng(6)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_grouped_for(v.begin(),v.end(),Comp(cx),GI(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(v),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   case 1: { form="range"; auto o=run<void>(p,[&]{return ba::parallel_grouped_for(v,Comp(cx),GI(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(v),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   case 2: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_grouped_for(std::move(v),Comp(cx),GI(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(*o.val),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   case 3: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_grouped_for(AS_CONT(v),Comp(cx),GI(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(*o.val),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   default: { form="two-iterators"; auto o=run<void>(p,[&]{return ba::parallel_grouped_for(v.begin(),v.end(),Comp(cx),G2(cx,&r),cut);}); if(chk_done(o,KEY(alg,form),in)) part(r,ref,alg,form,in); break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
SCENARIO(grouped_transform,600,8000){ HEAD v=sorted(std::move(v)); INIT const char *alg="grouped_transform",*form="?"; Snap s0=snap(v),want=s0; for(auto&e:want){ e.first++; e.second+=3; } Rec r; VE ref=v; Dest d(n); typedef VE::iterator I;
  switch(c.rng(6)){
   case 0: { form="iter"; auto o=run<I>(p,[&]{return ba::parallel_grouped_transform(v.begin(),v.end(),d.b(),Comp(cx),G1(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,want); once(*cx,n,alg,form,in); chk(*o.val==d.e(),"iterator",alg,form,in); } break; }
   case 1: { form="range"; auto o=run<I>(p,[&]{return ba::parallel_grouped_transform(v,d.b(),Comp(cx),G1(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,want); once(*cx,n,alg,form,in); chk(*o.val==d.e(),"iterator",alg,form,in); } break; }
   case 2: { form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_grouped_transform<VE>(std::move(v),Comp(cx),G1(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(*o.val),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   case 3: { form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_grouped_transform<VE>(AS_CONT(v),Comp(cx),G1(cx),cut);}); if(chk_done(o,KEY(alg,form),in)){ eqv(snap(*o.val),want,alg,form,in); once(*cx,n,alg,form,in); } break; }
   default: { form="three-iterators"; auto o=run<I>(p,[&]{return ba::parallel_grouped_transform(v.begin(),v.end(),d.b(),Comp(cx),GT(cx,&r),cut);}); if(chk_done(o,KEY(alg,form),in)){ part(r,ref,alg,form,in); d.check(alg,form,in,want); eqv(snap(v),s0,alg,"input",in); } break; } }
  c.sig(mon::hstr(in.c_str())+mon::hstr(form)); }
#endif
