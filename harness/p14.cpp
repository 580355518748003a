// P14: parallel query algorithms against their sequential counterparts.
#include "alg.hpp"
#if PART==1
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#elif PART==2
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#elif PART==3
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#elif PART==4
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
#endif
template<class X> std::string val(X x){ return std::to_string(x); }
struct Unchanged { VE const& v; std::vector<std::pair<int,int>> s; const char* a; Unchanged(VE const& x,const char* n):v(x),s(snap(x)),a(n){} ~Unchanged(){ if(snap(v)!=s) mon::fail_s(std::string("modified:")+a,"a query algorithm changed its input"); } };
#define IN (DESC+show(v))

#if PART==1
static void quant(mon::Case& c){
  HEAD cx->shortcut=true; int a=n?(c.rng.p(80)?v[c.rng(n)].k:c.rng(5)):3; if(c.rng.p(25)&&n){ int mx=0; for(auto&e:v) mx=std::max(mx,e.k); a=mx+1; } int mode=c.rng(4); if(mode==3) mode=c.rng.range(3,4); int form=c.rng(2); Pred f(cx,mode,a);
  if(c.rng.p(10)){ cut=c.rng.range(1001,3000); if(c.rng.p(70)){ n=c.rng.range(900,4000); v=gen(c.rng,n); } }
  std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str());
  auto pr=[&](E const& e){ return Pred::t(mode,a,e.k); };
  bool all=std::all_of(v.begin(),v.end(),pr),any=std::any_of(v.begin(),v.end(),pr),none=std::none_of(v.begin(),v.end(),pr);
  Unchanged u(v,"quantifiers"); VE v2=v,v3=v,v4=v;
  switch(form){
   case 0: same(run<bool>(p,[&]{return ba::parallel_all_of(v.begin(),v.end(),f,cut);}),all,"all_of","iter",in);
           same(run<bool>(p,[&]{return ba::parallel_any_of(v.begin(),v.end(),f,cut);}),any,"any_of","iter",in);
           same(run<bool>(p,[&]{return ba::parallel_none_of(v.begin(),v.end(),f,cut);}),none,"none_of","iter",in); break;
   case 1: same(run<bool>(p,[&]{return ba::parallel_all_of(AS_CONT(v2),f,cut);}),all,"all_of","cont",in);
           same(run<bool>(p,[&]{return ba::parallel_any_of(AS_CONT(v3),f,cut);}),any,"any_of","cont",in);
           same(run<bool>(p,[&]{return ba::parallel_none_of(AS_CONT(v4),f,cut);}),none,"none_of","cont",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(quantifiers,220,6000){ quant(c); }
SCENARIO(count,260,6000){ HEAD int a=n?v[c.rng(n)].k:3; int mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str());
  long want=std::count_if(v.begin(),v.end(),[&](E const& e){return Pred::t(mode,a,e.k);}),wantv=std::count_if(v.begin(),v.end(),[&](E const& e){return e.k==a;}); E val(a,0);
  Unchanged u(v,"count"); VE v2=v; std::list<E> l(v.begin(),v.end()); VE const& cv=v;
  switch(c.rng(8)){
   case 0: same(run<long>(p,[&]{return ba::parallel_count_if(v.begin(),v.end(),f,cut);}),want,"count_if","iter",in); if(!THROWMODE&&cx->calls!=n) mon::fail("calls:count_if","predicate called %ld times for %d elements: %s",cx->calls.load(),n,in.c_str()); break;
   case 1: same(run<long>(p,[&]{return ba::parallel_count_if(cv,f,cut);}),want,"count_if","range",in); if(!THROWMODE&&cx->calls!=n) mon::fail("calls:count_if","predicate called %ld times for %d elements: %s",cx->calls.load(),n,in.c_str()); break;
   case 2: same(run<long>(p,[&]{return ba::parallel_count_if(std::move(v2),f,cut);}),want,"count_if","moved",in); break;
   case 3: same(run<long>(p,[&]{return ba::parallel_count_if(AS_CONT(v2),f,cut);}),want,"count_if","cont",in); break;
   case 4: same(run<long>(p,[&]{return ba::parallel_count(v.begin(),v.end(),val,cut);}),wantv,"count","iter",in); break;
   case 5: same(run<long>(p,[&]{return ba::parallel_count(std::move(v2),val,cut);}),wantv,"count","moved",in); break;
   case 6: same(run<long>(p,[&]{return ba::parallel_count(AS_CONT(v2),val,cut);}),wantv,"count","cont",in); break;
   case 7: same(run<long>(p,[&]{return ba::parallel_count_if(l.begin(),l.end(),f,cut);}),want,"count_if","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(extremum,200,5000){ HEAD if(n==0){ n=1; v=gen(c.rng,1);} int mode=c.rng(3); Less f(cx,mode); std::string in=DESC+mon::fmt("less=%d ",mode)+show(v); c.say("%.300s",in.c_str());
  // the extremum by c: no element compares better
  Unchanged u(v,"extremum"); VE v2=v; VE const& cv=v; Out<E> o; const char* form="?"; std::function<bool(E const&,E const&)> sf=f;
  switch(c.rng(4)){
   case 0: form="iter"; o=run<E>(p,[&]{return ba::parallel_extremum(v.begin(),v.end(),f,cut);}); break;
   case 1: form="range"; o=run<E>(p,[&]{return ba::parallel_extremum(cv,f,cut);}); break;
   case 2: form="moved"; o=run<E>(p,[&]{return ba::parallel_extremum(std::move(v2),f,cut);}); break;
   case 3: form="cont"; o=run<E>(p,[&]{return ba::parallel_extremum(AS_CONT(v2),f,cut);}); break; }
  std::string k=std::string("extremum:")+form; if(chk_done(o,k.c_str(),in)){ bool found=false; for(auto&e:v){ if(e.k==o.val->k&&e.id==o.val->id) found=true; if(Less::t(mode,e.k,o.val->k)){ mon::fail_s("result:"+k,"not the extremum: "+in); break; } } if(!found) mon::fail_s("result:"+k,"not an element of the range: "+in); }
  c.sig(mon::hstr(in.c_str())); }
#elif PART==2
SCENARIO(find_all,220,5000){ HEAD int a=n?v[c.rng(n)].k:3; int mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str());
  VE want; for(auto&e:v) if(Pred::t(mode,a,e.k)) want.push_back(e); Unchanged u(v,"find_all"); VE v2=v; VE const& cv=v; std::list<E> l(v.begin(),v.end()); Out<VE> o; const char* form="?";
  switch(c.rng(5)){
   case 0: form="iter"; o=run<VE>(p,[&]{return ba::parallel_find_all(v.begin(),v.end(),f,cut);}); break;
   case 1: form="range"; o=run<VE>(p,[&]{return ba::parallel_find_all(cv,f,cut);}); break;
   case 2: form="moved"; o=run<VE>(p,[&]{return ba::parallel_find_all(std::move(v2),f,cut);}); break;
   case 3: form="cont"; o=run<VE>(p,[&]{return ba::parallel_find_all(AS_CONT(v2),f,cut);}); break;
   case 4: form="list"; o=run<VE>(p,[&]{return ba::parallel_find_all(l.begin(),l.end(),f,cut);}); break; }
  std::string k=std::string("find_all:")+form; if(chk_done(o,k.c_str(),in)&&snap(*o.val)!=snap(want)) mon::fail_s("result:"+k,"wrong elements: "+in+" got "+show(*o.val));
  c.sig(mon::hstr(in.c_str())); }
// needles: sub-ranges of the haystack (also across every possible split), unrelated ones, empty, longer than the haystack
static VE needle(mon::Rng& r,VE const& v){ int n=(int)v.size(); VE q; int m=r(10); if(m==0) return q; if(m==1){ for(int i=0;i<n+1+r(3);++i) q.emplace_back(i<n?v[i].k:1,i); return q; }
  if(m==2||!n){ for(int i=r.range(1,4);i>0;--i) q.emplace_back(r(5),i); return q; }
  int len=r.p(60)?r.range(1,std::min(n,4)):r.range(1,n); int at=r(n-len+1); for(int i=0;i<len;++i) q.emplace_back(v[at+i].k,i); if(r.p(15)) q.back().k++; return q; }
#define SEARCH(NAME,STD) SCENARIO(NAME,200,6000){ HEAD cx->shortcut=true; if(c.rng.p(60)){ int s=c.rng.range(2,3); for(auto&e:v) e.k=c.rng(s);} VE q=needle(c.rng,v); int mode=c.rng.p(50)?0:c.rng(5); Eq f(cx,mode); std::string in=DESC+mon::fmt("eq=%d ",mode)+show(v)+" needle "+show(q); c.say("%.300s",in.c_str()); \
  Unchanged u(v,#NAME); VE q2=q; auto eq=[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);}; auto want=STD(v.begin(),v.end(),q.begin(),q.end(),eq); auto wante=STD(v.begin(),v.end(),q.begin(),q.end(),[](E const& x,E const& y){return x.k==y.k;}); std::list<E> l(v.begin(),v.end()); auto wl=STD(l.begin(),l.end(),q.begin(),q.end(),eq); \
  switch(c.rng(4)){ case 0: same(run<VE::iterator>(p,[&]{return ba::parallel_##NAME(v.begin(),v.end(),q.begin(),q.end(),f,cut);}),want,#NAME,"iter",in); break; \
   case 1: same(run<VE::iterator>(p,[&]{return ba::parallel_##NAME(v.begin(),v.end(),q.begin(),q.end(),cut);}),wante,#NAME,"equal",in); break; \
   case 2: same(run<VE::iterator>(p,[&]{return ba::parallel_##NAME(v.begin(),v.end(),AS_CONT(q2),f,cut);}),want,#NAME,"cont",in); break; \
   case 3: same(run<std::list<E>::iterator>(p,[&]{return ba::parallel_##NAME(l.begin(),l.end(),q.begin(),q.end(),f,cut);}),wl,#NAME,"list",in); break; } \
  c.sig(mon::hstr(in.c_str())); }
SEARCH(search,std::search)
SEARCH(find_end,std::find_end)
SEARCH(find_first_of,std::find_first_of)
#elif PART==3
// second ranges: equal, differing at one place, shorter/longer
static VE other(mon::Rng& r,VE const& v,bool samelen){ VE q=v; int n=(int)v.size(); int m=r(4); if(m==0&&n) q[r(n)].k+=r.p(50)?1:-1; if(m==1&&n) for(int i=0;i<r.range(1,4);++i) q[r(n)].k=r(5); if(m==2) q=gen(r,n);
  if(!samelen){ int k=r(4); if(k==0){ int cutn=r(n+1); q.erase(q.begin()+cutn,q.end()); } else if(k==1){ int x=r.range(1,n+2); for(int i=0;i<x;++i) q.emplace_back(r(4),1000+i); } else if(k==2&&n>1){ q.erase(q.begin()+(n/2),q.end()); } } q.shrink_to_fit(); return q; }
SCENARIO(equal,220,5000){ HEAD cx->shortcut=true; VE q=other(c.rng,v,true); int mode=c.rng(5); Eq f(cx,mode); std::string in=DESC+mon::fmt("eq=%d ",mode)+show(v)+" "+show(q); c.say("%.300s",in.c_str()); Unchanged u(v,"equal"); std::list<E> l(v.begin(),v.end());
  bool want=std::equal(v.begin(),v.end(),q.begin(),[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);}),wante=std::equal(v.begin(),v.end(),q.begin());
  switch(c.rng(3)){ case 0: same(run<bool>(p,[&]{return ba::parallel_equal(v.begin(),v.end(),q.begin(),f,cut);}),want,"equal","iter",in); break; case 1: same(run<bool>(p,[&]{return ba::parallel_equal(v.begin(),v.end(),q.begin(),cut);}),wante,"equal","equal",in); break;
   case 2: same(run<bool>(p,[&]{return ba::parallel_equal(l.begin(),l.end(),q.begin(),f,cut);}),want,"equal","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(mismatch,220,5000){ HEAD cx->shortcut=true; VE q=other(c.rng,v,true); int mode=c.rng(5); Eq f(cx,mode); std::string in=DESC+mon::fmt("eq=%d ",mode)+show(v)+" "+show(q); c.say("%.300s",in.c_str()); Unchanged u(v,"mismatch"); std::list<E> l(q.begin(),q.end());
  auto eq=[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);}; auto want=std::mismatch(v.begin(),v.end(),q.begin(),eq); auto wante=std::mismatch(v.begin(),v.end(),q.begin()); auto wl=std::mismatch(v.begin(),v.end(),l.begin(),eq); typedef std::pair<VE::iterator,VE::iterator> R; typedef std::pair<VE::iterator,std::list<E>::iterator> RL;
  switch(c.rng(3)){ case 0: same(run<R>(p,[&]{return ba::parallel_mismatch(v.begin(),v.end(),q.begin(),f,cut);}),want,"mismatch","iter",in); break; case 1: same(run<R>(p,[&]{return ba::parallel_mismatch(v.begin(),v.end(),q.begin(),cut);}),wante,"mismatch","equal",in); break;
   case 2: same(run<RL>(p,[&]{return ba::parallel_mismatch(v.begin(),v.end(),l.begin(),f,cut);}),wl,"mismatch","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(lexicographical,260,6000){ HEAD cx->shortcut=true; VE q=other(c.rng,v,false); int mode=c.rng(3); Less f(cx,mode); std::string in=DESC+mon::fmt("less=%d ",mode)+show(v)+" "+show(q); c.say("%.300s",in.c_str()); Unchanged u(v,"lexicographical_compare"); std::list<E> l(v.begin(),v.end()),lq(q.begin(),q.end());
  bool want=std::lexicographical_compare(v.begin(),v.end(),q.begin(),q.end(),[&](E const& x,E const& y){return Less::t(mode,x.k,y.k);}),wante=std::lexicographical_compare(v.begin(),v.end(),q.begin(),q.end());
  switch(c.rng(3)){ case 0: same(run<bool>(p,[&]{return ba::parallel_lexicographical_compare(v.begin(),v.end(),q.begin(),q.end(),f,cut);}),want,"lexicographical_compare","iter",in); break; case 1: same(run<bool>(p,[&]{return ba::parallel_lexicographical_compare(v.begin(),v.end(),q.begin(),q.end(),cut);}),wante,"lexicographical_compare","less",in); break;
   case 2: same(run<bool>(p,[&]{return ba::parallel_lexicographical_compare(l.begin(),l.end(),lq.begin(),lq.end(),f,cut);}),want,"lexicographical_compare","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(adjacent_find,220,5000){ HEAD cx->shortcut=true; if(c.rng.p(60)){ for(int i=0;i<n;++i) v[i].k=i; for(int i=c.rng(3);i>0&&n>1;--i){ int j=c.rng(n-1); v[j+1].k=v[j].k; } } int mode=c.rng.p(50)?0:c.rng(5); Eq f(cx,mode); std::string in=DESC+mon::fmt("eq=%d ",mode)+show(v); c.say("%.300s",in.c_str()); Unchanged u(v,"adjacent_find"); std::list<E> l(v.begin(),v.end());
  auto eq=[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);};
  switch(c.rng(3)){ case 0: same(run<VE::iterator>(p,[&]{return ba::parallel_adjacent_find(v.begin(),v.end(),f,cut);}),std::adjacent_find(v.begin(),v.end(),eq),"adjacent_find","iter",in); break; case 1: same(run<VE::iterator>(p,[&]{return ba::parallel_adjacent_find(v.begin(),v.end(),cut);}),std::adjacent_find(v.begin(),v.end()),"adjacent_find","equal",in); break;
   case 2: same(run<std::list<E>::iterator>(p,[&]{return ba::parallel_adjacent_find(l.begin(),l.end(),f,cut);}),std::adjacent_find(l.begin(),l.end(),eq),"adjacent_find","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(adjacent_find_order,160,4000){ HEAD bool up=c.rng.p(50); std::sort(v.begin(),v.end()); if(up) std::reverse(v.begin(),v.end()); if(n>1&&c.rng.p(80)){ int j=c.rng(n-1); v[j+1].k=v[j].k+(up?1:-1); } Less f(cx,up?0:1); auto ls=[&](E const& x,E const& y){return Less::t(up?0:1,x.k,y.k);}; std::string in=DESC+mon::fmt("first pair with x%sy ",up?"<":">")+show(v); c.say("%.300s",in.c_str()); Unchanged u(v,"adjacent_find"); std::list<E> l(v.begin(),v.end()); cx->shortcut=true;
  if(c.rng(2)) same(run<VE::iterator>(p,[&]{return ba::parallel_adjacent_find(v.begin(),v.end(),f,cut);}),std::adjacent_find(v.begin(),v.end(),ls),"adjacent_find","iter,order",in);
  else same(run<std::list<E>::iterator>(p,[&]{return ba::parallel_adjacent_find(l.begin(),l.end(),f,cut);}),std::adjacent_find(l.begin(),l.end(),ls),"adjacent_find","list,order",in);
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(search_n,240,6000){ HEAD cx->shortcut=true; int s=c.rng.range(1,3); if(c.rng.p(80)) for(auto&e:v) e.k=c.rng(s); int cnt=c.rng.p(10)?0:c.rng.p(15)?n+c.rng(3):c.rng.range(1,c.rng.p(50)?4:std::max(1,n)); int mode=c.rng.p(50)?0:c.rng(5); Eq f(cx,mode); E val(c.rng(s),0);
  if(n>1&&cnt<=n&&c.rng.p(60)){ int at=c.rng(n-cnt+1); for(int i=0;i<cnt;++i) v[at+i].k=val.k; } std::string in=DESC+mon::fmt("eq=%d count=%d value=%d ",mode,cnt,val.k)+show(v); c.say("%.300s",in.c_str()); Unchanged u(v,"search_n"); std::list<E> l(v.begin(),v.end());
  auto eq=[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);};
  switch(c.rng(3)){ case 0: same(run<VE::iterator>(p,[&]{return ba::parallel_search_n(v.begin(),v.end(),cnt,val,f,cut);}),std::search_n(v.begin(),v.end(),cnt,val,eq),"search_n","iter",in); break; case 1: same(run<VE::iterator>(p,[&]{return ba::parallel_search_n(v.begin(),v.end(),cnt,val,cut);}),std::search_n(v.begin(),v.end(),cnt,val),"search_n","equal",in); break;
   case 2: same(run<std::list<E>::iterator>(p,[&]{return ba::parallel_search_n(l.begin(),l.end(),cnt,val,f,cut);}),std::search_n(l.begin(),l.end(),cnt,val,eq),"search_n","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
#elif PART==4
SCENARIO(is_partitioned,260,6000){ HEAD cx->shortcut=true; int a=n?v[c.rng(n)].k:3; int mode=c.rng(5); Pred f(cx,mode,a); auto pr=[&](E const& e){return Pred::t(mode,a,e.k);}; if(c.rng.p(70)) std::stable_partition(v.begin(),v.end(),pr); if(c.rng.p(30)&&n>1) std::swap(v[c.rng(n)].k,v[c.rng(n)].k); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str()); Unchanged u(v,"is_partitioned"); std::list<E> l(v.begin(),v.end());
  bool want=std::is_partitioned(v.begin(),v.end(),pr);
  if(c.rng(2)) same(run<bool>(p,[&]{return ba::parallel_is_partitioned(v.begin(),v.end(),f,cut);}),want,"is_partitioned","iter",in); else same(run<bool>(p,[&]{return ba::parallel_is_partitioned(l.begin(),l.end(),f,cut);}),want,"is_partitioned","list",in);
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(is_sorted,300,6000){ HEAD cx->shortcut=true; int mode=c.rng(3); auto ls=[&](E const& x,E const& y){return Less::t(mode,x.k,y.k);}; bool rev=c.rng.p(50); if(c.rng.p(80)){ std::stable_sort(v.begin(),v.end(),ls); if(rev) std::reverse(v.begin(),v.end()); } if(c.rng.p(40)&&n>1) std::swap(v[c.rng(n)].k,v[c.rng(n)].k); Less f(cx,mode); std::string in=DESC+mon::fmt("less=%d rev=%d ",mode,rev)+show(v); c.say("%.300s",in.c_str()); Unchanged u(v,"is_sorted"); std::list<E> l(v.begin(),v.end());
  auto gr=[&](E const& x,E const& y){return Less::t(mode,y.k,x.k);};
  switch(c.rng(3)){ case 0: same(run<bool>(p,[&]{return ba::parallel_is_sorted(v.begin(),v.end(),f,cut);}),std::is_sorted(v.begin(),v.end(),ls),"is_sorted","iter",in); break; case 1: same(run<bool>(p,[&]{return ba::parallel_is_reverse_sorted(v.begin(),v.end(),f,cut);}),std::is_sorted(v.begin(),v.end(),gr),"is_reverse_sorted","iter",in); break;
   case 2: same(run<bool>(p,[&]{return ba::parallel_is_sorted(l.begin(),l.end(),f,cut);}),std::is_sorted(v.begin(),v.end(),ls),"is_sorted","list",in); break; }
  c.sig(mon::hstr(in.c_str())); }
struct Kmp { std::vector<long> hits; template<class I> void operator()(I const& i){ hits.push_back((long)i); mon::ev(); } void merge(Kmp&& o){ hits.insert(hits.end(),o.hits.begin(),o.hits.end()); } bool operator==(std::vector<long> const& w) const { auto h=hits; std::sort(h.begin(),h.end()); return h==w; } };
SCENARIO(kmp,260,6000){ HEAD int s=c.rng.range(1,3); for(auto&e:v) e.k=c.rng(s); VE q; int len=c.rng.p(10)?0:c.rng.p(70)?c.rng.range(1,5):c.rng.range(1,n+2); if(n&&len<=n&&c.rng.p(70)){ int at=c.rng(n-len+1); for(int i=0;i<len;++i) q.emplace_back(v[at+i].k,i); } else for(int i=0;i<len;++i) q.emplace_back(c.rng(s),i);
  std::string in=DESC+show(v)+" needle "+show(q); c.say("%.300s",in.c_str()); std::vector<long> want; if(len) for(int i=0;i+len<=n;++i) if(std::equal(q.begin(),q.end(),v.begin()+i)) want.push_back(i);
  Unchanged u(v,"kmp"); VE v2=v,q2=q; VE const& cv=v; VE const& cq=q;
  switch(c.rng(6)){ case 0: same(run<Kmp>(p,[&]{return ba::parallel_kmp(v.begin(),v.end(),q.begin(),q.end(),Kmp(),cut);}),want,"kmp","iter,iter",in); break;
   case 1: same(run<Kmp>(p,[&]{return ba::parallel_kmp(cv,cq,Kmp(),cut);}),want,"kmp","range,range",in); break;
   case 2: same(run<Kmp>(p,[&]{return ba::parallel_kmp(std::move(v2),std::move(q2),Kmp(),cut);}),want,"kmp","moved,moved",in); break;
   case 3: same(run<Kmp>(p,[&]{return ba::parallel_kmp(AS_CONT(v2),AS_CONT(q2),Kmp(),cut);}),want,"kmp","cont,cont",in); break;
   case 4: same(run<Kmp>(p,[&]{return ba::parallel_kmp(cv,AS_CONT(q2),Kmp(),cut);}),want,"kmp","range,cont",in); break;
   case 5: same(run<Kmp>(p,[&]{return ba::parallel_kmp(AS_CONT(v2),cq,Kmp(),cut);}),want,"kmp","cont,range",in); break; }
  c.sig(mon::hstr(in.c_str())); }
#endif
