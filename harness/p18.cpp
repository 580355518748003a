// P18: partition, stable partition, partition_copy, merge, nth_element, partial_sort, unique, group_by.
#include "alg.hpp"
#if PART==1
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#elif PART==2
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#elif PART==3
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#else
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#endif
static Snap sorted(Snap s){ std::sort(s.begin(),s.end()); return s; }
static bool perm(VE const& v,Snap const& before,const char* alg,const char* form,std::string const& in){ return chk(sorted(snap(v))==sorted(before),"permutation",alg,form,"elements lost, duplicated or changed: "+in); }
struct Unch { VE const& v; Snap s; const char* a; Unch(VE const& x,const char* n):v(x),s(snap(x)),a(n){} ~Unch(){ if(snap(v)!=s) mon::fail_s(std::string("modified:")+a,"the input was changed"); } };
#if PART==1
static void part(mon::Case& c,bool big){ HEAD if(big){ n=c.rng.p(70)?c.rng.range(9990,14000):c.rng.range(14000,40000); v=gen(c.rng,n); if(c.rng.p(50)){ int s=c.rng.range(2,2000); for(auto&e:v) e.k=c.rng(s); } cx=ctx(c.rng,n); }
  int a=n?v[c.rng(n)].k:3; if(big&&c.rng.p(30)) a=a/2; int mode=c.rng(5); if(big&&c.rng.p(50)) mode=c.rng(2)*2; Pred f(cx,mode,a); uint32_t th=(uint32_t[]){0,1,2,3,4,8,16}[c.rng(7)]; std::string in=DESC+mon::fmt("threads=%u pred=%d/%d ",th,mode,a)+show(v); c.say("%.300s",in.c_str()); Snap before=snap(v); auto pr=[&](E const& e){return Pred::t(mode,a,e.k);}; long nt=std::count_if(v.begin(),v.end(),pr); const char* alg="partition"; const char* form="?";
  auto judge=[&](VE const& r,long at){ if(at!=nt) mon::fail_s(std::string("result:partition:")+form,mon::fmt("boundary at %ld instead of %ld: ",at,nt)+in); bool ok=std::is_partitioned(r.begin(),r.end(),pr); chk(ok,"result",alg,form,"not partitioned: "+in); perm(r,before,alg,form,in); };
  switch(c.rng(big?4:3)){ case 1:{ form="moved"; VE v2=v; typedef std::pair<VE,VE::iterator> R; auto o=run<R>(p,[&]{return ba::parallel_partition(std::move(v2),f,th);}); if(chk_done(o,KEY(alg,form),in)) judge(o.val->first,o.val->second-o.val->first.begin()); break; }
   case 2:{ form="cont"; VE v2=v; typedef std::pair<VE,VE::iterator> R; auto o=run<R>(p,[&]{return ba::parallel_partition(AS_CONT(v2),f,th);}); if(chk_done(o,KEY(alg,form),in)) judge(o.val->first,o.val->second-o.val->first.begin()); break; }
   default:{ form="iter"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_partition(v.begin(),v.end(),f,th);}); if(chk_done(o,KEY(alg,form),in)) judge(v,*o.val-v.begin()); break; } }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(partition,200,5000){ part(c,false); }
SCENARIO(partition_big,70,2500){ part(c,true); }
#elif PART==2
SCENARIO(stable_partition,240,6000){ HEAD int a=n?v[c.rng(n)].k:3; int mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str()); auto pr=[&](E const& e){return Pred::t(mode,a,e.k);}; VE want=v; long at=std::stable_partition(want.begin(),want.end(),pr)-want.begin(); Snap ws=snap(want); const char* alg="stable_partition"; const char* form="?";
  auto judge=[&](Snap const& got,long b){ if(b!=at) mon::fail_s(std::string("result:stable_partition:")+form,mon::fmt("boundary at %ld instead of %ld: ",b,at)+in); eqv(got,ws,alg,form,in); };
  switch(c.rng(4)){ case 0:{ form="iter"; Dest d(n); auto o=run<VE::iterator>(p,[&]{return ba::parallel_stable_partition(v.begin(),v.end(),d.b(),f,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,ws); if(*o.val-d.b()!=at) mon::fail_s("result:stable_partition:iter","wrong boundary: "+in); } break; }
   case 1:{ form="moved"; typedef std::pair<VE,VE::iterator> R; VE v2=v; auto o=run<R>(p,[&]{return ba::parallel_stable_partition(std::move(v2),f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(o.val->first),o.val->second-o.val->first.begin()); break; }
   case 2:{ form="cont"; typedef std::pair<VE,VE::iterator> R; VE v2=v; auto o=run<R>(p,[&]{return ba::parallel_stable_partition(AS_CONT(v2),f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(o.val->first),o.val->second-o.val->first.begin()); break; }
   case 3:{ form="list"; std::list<E> l(v.begin(),v.end()); Dest d(n); auto o=run<VE::iterator>(p,[&]{return ba::parallel_stable_partition(l.begin(),l.end(),d.b(),f,cut);}); if(chk_done(o,KEY(alg,form),in)){ d.check(alg,form,in,ws); if(*o.val-d.b()!=at) mon::fail_s("result:stable_partition:list","wrong boundary: "+in); } break; } }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(partition_copy,240,6000){ HEAD int a=n?v[c.rng(n)].k:3; int mode=c.rng(5); Pred f(cx,mode,a); std::string in=DESC+mon::fmt("pred=%d/%d ",mode,a)+show(v); c.say("%.300s",in.c_str()); Snap t,fl; for(auto&e:v) (Pred::t(mode,a,e.k)?t:fl).emplace_back(e.k,e.id); Unch u(v,"partition_copy"); Dest dt((int)t.size()),df((int)fl.size()); const char* alg="partition_copy"; const char* form; typedef std::pair<VE::iterator,VE::iterator> R; Out<R> o;
  if(c.rng(2)){ form="iter"; o=run<R>(p,[&]{return ba::parallel_partition_copy(v.begin(),v.end(),dt.b(),df.b(),f,cut);}); } else { form="list"; std::list<E> l(v.begin(),v.end()); o=run<R>(p,[&]{return ba::parallel_partition_copy(l.begin(),l.end(),dt.b(),df.b(),f,cut);}); }
  if(chk_done(o,KEY(alg,form),in)){ dt.check(alg,form,in,t); df.check(alg,form,in,fl); if(o.val->first!=dt.e()||o.val->second!=df.e()) mon::fail_s(std::string("result:partition_copy:")+form,"wrong end of output: "+in); }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(merge,300,8000){ HEAD int n2=gen_n(c.rng); VE q=gen(c.rng,n2); for(auto&e:q) e.id+=100000; int mode=c.rng(3); auto ls=[&](E const& x,E const& y){return Less::t(mode,x.k,y.k);}; if(c.rng.p(50)){ int s=c.rng.range(1,8); for(auto&e:v) e.k=c.rng(s); for(auto&e:q) e.k=c.rng(s); } std::stable_sort(v.begin(),v.end(),ls); std::stable_sort(q.begin(),q.end(),ls); Less f(cx,mode); std::string in=DESC+mon::fmt("less=%d ",mode)+show(v)+" "+show(q); c.say("%.300s",in.c_str()); Snap want; { VE m; std::merge(v.begin(),v.end(),q.begin(),q.end(),std::back_inserter(m),ls); want=snap(m); } Dest d(n+n2); const char* alg="merge"; const char* form="iter";
  auto o=run<void>(p,[&]{return ba::parallel_merge(v.begin(),v.end(),q.begin(),q.end(),d.b(),f,cut);}); if(chk_done(o,KEY(alg,form),in)) d.check(alg,form,in,want);
  c.sig(mon::hstr(in.c_str())); }
#elif PART==3
static void nth(mon::Case& c,bool big){ HEAD if(big){ n=c.rng.range(10000,16000); v=gen(c.rng,n); if(c.rng.p(50)){ int s=c.rng.range(2,20000); for(auto&e:v) e.k=c.rng(s); } cut=c.rng.p(50)?c.rng.range(100,3000):c.rng.range(3000,20000); cx=ctx(c.rng,n); }
  int mode=c.rng(3); Less f(cx,mode); auto ls=[&](E const& x,E const& y){return Less::t(mode,x.k,y.k);}; int at=c.rng.p(15)?0:c.rng.p(15)?n:c.rng.p(10)&&n?n-1:c.rng(n+1); uint32_t th=c.rng.range(1,6); bool ps=c.rng(2); const char* alg=ps?"partial_sort":"nth_element"; const char* form=big?"big":"iter"; std::string in=DESC+mon::fmt("threads=%u less=%d position=%d ",th,mode,at)+show(v); c.say("%s %.300s",alg,in.c_str()); Snap before=snap(v); VE want=v; std::stable_sort(want.begin(),want.end(),ls);
  auto eqk=[&](E const& x,E const& y){ return !ls(x,y)&&!ls(y,x); };
  auto o=ps?run<void>(p,[&]{return ba::parallel_partial_sort(v.begin(),v.begin()+at,v.end(),f,cut,th);}):run<void>(p,[&]{return ba::parallel_nth_element(v.begin(),v.begin()+at,v.end(),f,cut,th);});
  if(chk_done(o,KEY(alg,form),in)){ perm(v,before,alg,form,in);
    if(ps){ for(int i=0;i<at;++i) if(!eqk(v[i],want[i])){ mon::fail_s(std::string("result:")+alg+":"+form,mon::fmt("element %d is %d instead of %d: ",i,v[i].k,want[i].k)+in); break; } }
    else if(at<n){ if(!eqk(v[at],want[at])) mon::fail_s(std::string("result:")+alg+":"+form,mon::fmt("the element at the position is %d instead of %d: ",v[at].k,want[at].k)+in);
      else for(int i=0;i<n;++i) if(i<at?ls(v[at],v[i]):ls(v[i],v[at])){ mon::fail_s(std::string("result:")+alg+":"+form,mon::fmt("element %d (%d) is on the wrong side of %d: ",i,v[i].k,v[at].k)+in); break; } } }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(selection,900,18000){ nth(c,false); }
SCENARIO(selection_big,24,900){ nth(c,true); }
#else
SCENARIO(unique,320,8000){ HEAD if(c.rng.p(70)){ int s=c.rng.range(1,4); for(auto&e:v) e.k=c.rng(s); } if(c.rng.p(40)) std::stable_sort(v.begin(),v.end()); int mode=c.rng(3); Eq f(cx,mode); auto eq=[&](E const& x,E const& y){return Eq::t(mode,x.k,y.k);}; std::string in=DESC+mon::fmt("eq=%d ",mode)+show(v); c.say("%.300s",in.c_str()); VE want=v; want.erase(std::unique(want.begin(),want.end(),eq),want.end()); const char* alg="unique"; const char* form;
  if(c.rng(3)){ form="iter"; auto o=run<VE::iterator>(p,[&]{return ba::parallel_unique(v.begin(),v.end(),f,cut);}); if(chk_done(o,KEY(alg,form),in)){ Snap g; for(auto it=v.begin();it!=*o.val;++it) g.emplace_back(it->k,it->moved?-99:it->id); eqv(g,snap(want),alg,form,in); } }
  else { form="cont"; VE v2=v; auto o=run<VE>(p,[&]{return ba::parallel_unique(AS_CONT(v2),f,cut);}); if(chk_done(o,KEY(alg,form),in)) eqv(snap(*o.val),snap(want),alg,form,in); }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(group_by,260,7000){ HEAD int mode=c.rng(3); if(c.rng.p(60)){ int s=c.rng.range(1,12); for(auto&e:v) e.k=c.rng(s); } auto ls=[&](E const& x,E const& y){return Less::t(mode,x.k,y.k);}; std::stable_sort(v.begin(),v.end(),ls); Less f(cx,mode); std::string in=DESC+mon::fmt("less=%d ",mode)+show(v); c.say("%.300s",in.c_str()); typedef std::vector<VE> G; std::vector<Snap> want; for(auto&e:v){ if(want.empty()||Less::t(mode,want.back().back().first,e.k)) want.emplace_back(); want.back().emplace_back(e.k,e.id); } const char* alg="group_by"; const char* form="?"; VE v2=v; Out<G> o;
  switch(c.rng(4)){ case 0: form="iter"; o=run<G>(p,[&]{return ba::parallel_group_by<G>(v2.begin(),v2.end(),f,cut);}); break;
   case 1: form="range"; o=run<G>(p,[&]{return ba::parallel_group_by<G>(v2,f,cut);}); break;
   case 2: form="moved"; o=run<G>(p,[&]{return ba::parallel_group_by<G>(std::move(v2),f,cut);}); break;
   case 3: form="cont"; o=run<G>(p,[&]{return ba::parallel_group_by<G>(AS_CONT(v2),f,cut);}); break; }
  if(chk_done(o,KEY(alg,form),in)){ std::vector<Snap> got; for(auto&g:*o.val) got.push_back(snap(g)); if(got!=want) mon::fail_s(std::string("result:group_by:")+form,mon::fmt("%d groups instead of %d, or wrong elements: ",(int)got.size(),(int)want.size())+in); }
  c.sig(mon::hstr(in.c_str())); }
#endif
