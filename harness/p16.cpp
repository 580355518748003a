// P16: parallel sorts order the range, keep every element, stable variants keep the order of equivalent ones.
#if PART==3
#define BOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
#include <boost/sort/spreadsort/spreadsort.hpp>
#endif
#include "alg.hpp"
#include <boost/asynchronous/container/vector.hpp>
#if PART==1 || PART==3 || PART==4
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#endif
#if PART==2 || PART==3
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#endif
#if PART==2
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#endif
// nearly sorted inputs of every kind: sorted, reversed, reversed with equal runs, all equal, one element out of place
static VE sgen(mon::Rng& r,int n,int mode){ VE v=gen(r,n); auto lt=[&](E const&x,E const&y){return Less::t(mode,x.k,y.k);}; int m=r(9);
  if(m<2) std::sort(v.begin(),v.end(),lt); else if(m<4) std::sort(v.begin(),v.end(),[&](E const&x,E const&y){return lt(y,x);}); else if(m==4) for(auto&e:v) e.k=4; 
  if(m<4&&n>1&&r.p(40)) v[r(n)].k=v[r(n)].k; if(m==5) for(auto&e:v) e.k%=3; for(int i=0;i<n;++i) v[i].id=i; return v; }
// sorted permutation of the input (Less), the std::stable_sort of it if stable
static void judge(Snap const& got,Snap in0,int mode,bool stable,const char* alg,const char* form,std::string const& in){
  Snap st=in0; std::stable_sort(st.begin(),st.end(),[&](auto&x,auto&y){return Less::t(mode,x.first,y.first);});
  for(auto&e:got) if(e.second==-99){ mon::fail_s(KEY("moved-from:",alg)+std::string(form),"a moved-from element is left in the range: "+in); return; }
  if(got.size()!=st.size()){ mon::fail_s(std::string("size:")+alg+":"+form,mon::fmt("%zu elements instead of %zu: ",got.size(),st.size())+in); return; }
  for(size_t i=0;i+1<got.size();++i) if(Less::t(mode,got[i+1].first,got[i].first)){ mon::fail_s(std::string("not-sorted:")+alg+":"+form,in+" got "+shows(got)); return; }
  Snap a=got,b=st; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if(a!=b){ mon::fail_s(std::string("not-a-permutation:")+alg+":"+form,in+" got "+shows(got)); return; }
  if(stable&&got!=st) mon::fail_s(std::string("not-stable:")+alg+":"+form,in+" got "+shows(got)); }
#undef HEAD
#define HEAD int n=gen_n(c.rng); long cut=gen_cut(c.rng,n); int w; SP& p=pools().pick(c.rng,w); c.chaos(); int mode=c.rng(3); VE v=sgen(c.rng,n,mode); auto cx=ctx(c.rng,4*n); Less f(cx,mode); \
  std::string in=DESC+mon::fmt("less=%d ",mode)+show(v); c.say("%.300s",in.c_str()); Snap s0=snap(v); const char *alg="?",*form="?"; (void)alg;
#define SIG c.sig(mon::hstr(in.c_str())^mon::hstr(alg)^mon::hstr(form));
#define ITER(NAME,STABLE) { alg=#NAME; form="iter"; auto o=run<void>(p,[&]{return ba::parallel_##NAME(v.begin(),v.end(),f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(v),s0,mode,STABLE,alg,form,in); }
#define SUB(NAME,STABLE) { alg=#NAME; form="sub-range"; int a=c.rng(n+1),b=a+c.rng(n-a+1); auto o=run<void>(p,[&]{return ba::parallel_##NAME(v.begin()+a,v.begin()+b,f,cut);}); if(chk_done(o,KEY(alg,form),in)){ Snap g=snap(v); judge(Snap(g.begin()+a,g.begin()+b),Snap(s0.begin()+a,s0.begin()+b),mode,STABLE,alg,form,in); for(int i=0;i<n;++i) if((i<a||i>=b)&&g[i]!=s0[i]){ mon::fail_s(std::string("out-of-range-write:")+alg,in); break; } } }
#define MOVED(NAME,STABLE) { alg=#NAME; form="moved"; auto o=run<VE>(p,[&]{return ba::parallel_##NAME(std::move(v),f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(*o.val),s0,mode,STABLE,alg,form,in); }
#define CONT(NAME,STABLE) { alg=#NAME; form="cont"; auto o=run<VE>(p,[&]{return ba::parallel_##NAME(AS_CONT(v),f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(*o.val),s0,mode,STABLE,alg,form,in); }
#define RANGE(NAME,STABLE) { alg=#NAME; form="range"; auto o=run<void>(p,[&]{return ba::parallel_##NAME(v,f,cut);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(v),s0,mode,STABLE,alg,form,in); }
#if PART==1
SCENARIO(sort_iter,800,12000){ HEAD switch(c.rng(4)){ case 0: ITER(sort,false) break; case 1: SUB(sort,false) break; case 2: ITER(stable_sort,true) break; case 3: SUB(stable_sort,true) break; } SIG }
SCENARIO(sort_range,800,12000){ HEAD switch(c.rng(4)){ case 0: MOVED(sort,false) break; case 1: CONT(sort,false) break; case 2: MOVED(stable_sort,true) break; case 3: CONT(stable_sort,true) break; } SIG }
#elif PART==2
SCENARIO(inplace,800,12000){ HEAD switch(c.rng(8)){ case 0: ITER(sort_inplace,false) break; case 1: SUB(stable_sort_inplace,true) break; case 2: RANGE(sort_inplace,false) break; case 3: RANGE(stable_sort_inplace,true) break;
   case 4: MOVED(sort_move_inplace,false) break; case 5: MOVED(stable_sort_move_inplace,true) break; case 6: CONT(sort_inplace,false) break; case 7: CONT(stable_sort_inplace,true) break; } SIG }
SCENARIO(quicksort,600,12000){ HEAD int tn=c.rng.range(1,8); switch(c.rng(3)){ case 0: ITER(quicksort,false) break; case 1: SUB(quicksort,false) break;
   case 2: { alg="quicksort"; form="threads"; auto o=run<void>(p,[&]{return ba::parallel_quicksort(v.begin(),v.end(),f,cut,(uint32_t)tn);}); if(chk_done(o,KEY(alg,form),in)) judge(snap(v),s0,mode,false,alg,form,in); } break; } SIG }
#elif PART==3
struct LI { bool operator()(int a,int b) const { return a<b; } };
SCENARIO(spreadsort,400,8000){ int n=gen_n(c.rng); long cut=gen_cut(c.rng,n); int w; SP& p=pools().pick(c.rng,w); c.chaos(); auto cx=ctx(c.rng,n); cx->throw_at=-1; VE e=sgen(c.rng,n,0); std::vector<int> v; for(auto&x:e) v.push_back(x.k); std::vector<int> want=v; std::sort(want.begin(),want.end());
  std::string in=DESC+show(e); c.say("%.300s",in.c_str()); const char* form="?"; LI f;
  auto ai=[&]{ return ba::parallel_for(std::move(v),[](int const&){},cut); };
  switch(c.rng(8)){
   case 0: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_spreadsort(v.begin(),v.end(),f,cut);}); if(chk_done(o,KEY("spreadsort",form),in)) chk(v==want,"result","spreadsort",form,in); break; }
   case 1: { form="moved"; auto o=run<std::vector<int>>(p,[&]{return ba::parallel_spreadsort(std::move(v),f,cut);}); if(chk_done(o,KEY("spreadsort",form),in)) chk(*o.val==want,"result","spreadsort",form,in); break; }
   case 2: { form="cont"; auto o=run<std::vector<int>>(p,[&]{return ba::parallel_spreadsort(ai(),f,cut);}); if(chk_done(o,KEY("spreadsort",form),in)) chk(*o.val==want,"result","spreadsort",form,in); break; }
   case 3: { form="iter"; auto o=run<void>(p,[&]{return ba::parallel_spreadsort_inplace(v.begin(),v.end(),f,cut);}); if(chk_done(o,KEY("spreadsort_inplace",form),in)) chk(v==want,"result","spreadsort_inplace",form,in); break; }
   case 4: { form="range"; auto o=run<void>(p,[&]{return ba::parallel_spreadsort_inplace(v,f,cut);}); if(chk_done(o,KEY("spreadsort_inplace",form),in)) chk(v==want,"result","spreadsort_inplace",form,in); break; }
   case 5: { form="moved"; auto o=run<std::vector<int>>(p,[&]{return ba::parallel_spreadsort_move_inplace(std::move(v),f,cut);}); if(chk_done(o,KEY("spreadsort_inplace",form),in)) chk(*o.val==want,"result","spreadsort_inplace",form,in); break; }
   default: { form="cont"; auto o=run<std::vector<int>>(p,[&]{return ba::parallel_spreadsort_inplace(ai(),f,cut);}); if(chk_done(o,KEY("spreadsort_inplace",form),in)) chk(*o.val==want,"result","spreadsort_inplace",form,in); break; } }
  c.sig(mon::hstr(in.c_str())^mon::hstr(form)); }
#elif PART==4
SCENARIO(sort2,800,12000){ HEAD switch(c.rng(4)){ case 0: MOVED(sort2,false) break; case 1: CONT(sort2,false) break; case 2: MOVED(stable_sort2,true) break; case 3: CONT(stable_sort2,true) break; } SIG }
#endif
