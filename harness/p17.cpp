// P17: reductions, inner products, partial sums and scans with associative, non-commutative operations.
#include "alg.hpp"
#if PART==1
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#elif PART==2
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#else
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#endif
// affine maps under composition: associative, not commutative. The default constructed value is the identity only if ID.
template<bool ID> struct M { uint32_t a=ID?1:0x5517,b=ID?0:77; uint32_t magic=0xE1E1u; bool moved=false;
  M(){} M(uint32_t x,uint32_t y):a(x),b(y){}
  M(M const& o):a(o.a),b(o.b),moved(o.moved){ o.ok(); } M(M&& o) noexcept:a(o.a),b(o.b),moved(o.moved){ o.ok(); o.moved=true; }
  M& operator=(M const& o){ ok(); o.ok(); a=o.a; b=o.b; moved=o.moved; return *this; } M& operator=(M&& o) noexcept { ok(); o.ok(); if(this!=&o){ a=o.a; b=o.b; moved=o.moved; o.moved=true; } return *this; }
  ~M(){ ok(); magic=0xDEAD; }
  void ok() const { if(magic!=0xE1E1u) mon::fail("element:dead","element read or written outside its lifetime"); }
  void use() const { ok(); if(moved) mon::fail("element:moved-from","a moved-from element is passed to user code"); }
  bool operator==(M const& o) const { return a==o.a&&b==o.b&&moved==o.moved; }
  static M comp(M const& x,M const& y){ return M(x.a*y.a,y.a*x.b+y.b); } };
template<bool ID> struct Comp : Fn { using Fn::Fn; M<ID> operator()(M<ID> const& x,M<ID> const& y) const { x.use(); y.use(); hit(); return M<ID>::comp(x,y); } };
template<bool ID> std::vector<M<ID>> genm(mon::Rng& r,int n){ std::vector<M<ID>> v; v.reserve(n); for(int i=0;i<n;++i) v.emplace_back(r(50)?(uint32_t)(2*r(1000)+1):1,(uint32_t)r(100000)); return v; }
template<bool ID> std::string showm(std::vector<M<ID>> const& v){ std::string s="["; int n=0; for(auto&e:v){ if(n++>12){ s+=".."; break; } s+=mon::fmt("%u*x+%u ",e.a,e.b);} return s+"]"; }
template<bool ID> M<ID> fold(std::vector<M<ID>> const& v){ if(v.empty()) return M<ID>(); M<ID> r=v[0]; for(size_t i=1;i<v.size();++i) r=M<ID>::comp(r,v[i]); return r; }
#define HEADM int n=gen_n(c.rng); long cut=gen_cut(c.rng,n); int w; SP& p=pools().pick(c.rng,w); c.chaos(); auto cx=ctx(c.rng,n); typedef M<ID> MM; typedef std::vector<MM> VM; VM v=genm<ID>(c.rng,n); std::string in=DESC+mon::fmt("identity=%d ",ID)+showm(v); c.say("%.300s",in.c_str());
static M<false> tom(E const& e){ return M<false>(2*(e.k&1023)+1,e.k*31+e.id); }
#if PART==1
template<bool ID> static void red(mon::Case& c){ HEADM Comp<ID> f(cx),f2(cx,1); MM want=fold(v); VM v2=v; VM const& cv=v; std::list<MM> l(v.begin(),v.end());
  switch(c.rng(7)){ case 0: same(run<MM>(p,[&]{return ba::parallel_reduce(v.begin(),v.end(),f,cut);}),want,"reduce","iter",in); break;
   case 1: same(run<MM>(p,[&]{return ba::parallel_reduce(v.begin(),v.end(),f,f2,cut);}),want,"reduce","iter,2",in); break;
   case 2: same(run<MM>(p,[&]{return ba::parallel_reduce(cv,f,cut);}),want,"reduce","range",in); break;
   case 3: same(run<MM>(p,[&]{return ba::parallel_reduce(std::move(v2),f,cut);}),want,"reduce","moved",in); break;
   case 4: same(run<MM>(p,[&]{return ba::parallel_reduce(ba::parallel_for(std::move(v2),[](MM const&){},cut),f,cut);}),want,"reduce","cont",in); break;
   case 5: same(run<MM>(p,[&]{return ba::parallel_reduce(l.begin(),l.end(),f,cut);}),want,"reduce","list",in); break;
   case 6: same(run<MM>(p,[&]{return ba::parallel_reduce(cv,f,f2,cut);}),want,"reduce","range,2",in); break; }
  if(!THROWMODE&&n&&cx->calls!=n-1) mon::fail("calls:reduce","operation called %ld times for %d elements: %s",cx->calls.load(),n,in.c_str());
  if(fold(v)!=want) mon::fail("modified:reduce","reduce changed its input");
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(reduce,300,8000){ if(c.rng(2)) red<true>(c); else red<false>(c); }
// the first functor reduces a sub-range, the second combines
template<class It> struct Sub : Fn { using Fn::Fn; M<false> operator()(It b,It e) const { hit(); if(b==e) return M<false>(); M<false> r=*b; for(++b;b!=e;++b){ b->use(); r=M<false>::comp(r,*b);} return r; } };
template<class It> struct SubE : Fn { using Fn::Fn; M<false> operator()(It b,It e) const { hit(); if(b==e) return M<false>(); M<false> r=tom(*b); for(++b;b!=e;++b) r=M<false>::comp(r,tom(*b)); return r; } };
SCENARIO(reduce_range,260,6000){ constexpr bool ID=false; HEADM MM want=fold(v); Comp<false> f2(cx); VM v2=v; VM const& cv=v; std::list<MM> l(v.begin(),v.end());
  Sub<VM::iterator> f(cx); Sub<VM::const_iterator> cf(cx); Sub<std::list<MM>::iterator> lf(cx);
  switch(c.rng(6)){ case 0: same(run<MM>(p,[&]{return ba::parallel_reduce(v.begin(),v.end(),f,f2,cut);}),want,"reduce_range","iter",in); break;
   case 1: same(run<MM>(p,[&]{return ba::parallel_reduce(cv,cf,f2,cut);}),want,"reduce_range","range",in); break;
   case 2: same(run<MM>(p,[&]{return ba::parallel_reduce(std::move(v2),f,f2,cut);}),want,"reduce_range","moved",in); break;
   case 3: same(run<MM>(p,[&]{return ba::parallel_reduce(ba::parallel_for(std::move(v2),[](MM const&){},cut),f,f2,cut);}),want,"reduce_range","cont",in); break;
   case 4: same(run<MM>(p,[&]{return ba::parallel_reduce(l.begin(),l.end(),lf,f2,cut);}),want,"reduce_range","list",in); break;
   case 5:{ VE e=gen(c.rng,n); SubE<VE::iterator> fe(cx); VM t; for(auto&x:e) t.push_back(tom(x)); same(run<MM>(p,[&]{return ba::parallel_reduce(e.begin(),e.end(),fe,f2,cut);}),fold(t),"reduce_range","iter,other type",in+show(e)); break; } }
  c.sig(mon::hstr(in.c_str())); }
#elif PART==2
struct Op : Fn { using Fn::Fn; M<false> operator()(E const& x,E const& y) const { x.use(); y.use(); hit(); return at(x,y); } static M<false> at(E const& x,E const& y){ return M<false>(2*((x.k*3+y.k)&4095)+1,x.k*7+y.k*13+x.id+3*y.id); } };
SCENARIO(inner_product,420,9000){ HEAD VE q=gen(c.rng,n); if(c.rng.p(20)) for(int i=c.rng(3);i>=0;--i) q.emplace_back(1,1); std::string in=DESC+show(v)+" "+show(q); c.say("%.300s",in.c_str()); typedef M<false> MM; bool wv=c.rng.p(50); MM val(2*c.rng(100)+1,c.rng(1000)); Op op(cx); Comp<false> rd(cx);
  MM w0; if(n){ w0=Op::at(v[0],q[0]); for(int i=1;i<n;++i) w0=MM::comp(w0,Op::at(v[i],q[i])); } MM want=wv?(n?MM::comp(val,w0):val):w0; VE v2=v,q2=q; std::list<E> l(v.begin(),v.end()),lq(q.begin(),q.end()); Snap sv=snap(v),sq=snap(q); int form=c.rng(4);
  std::string kf=wv?",value":"";
  if(form==2&&!n) form=1;  // an empty range given by a continuation is judged by inner_product_empty
  switch(form){ case 0: same(wv?run<MM>(p,[&]{return ba::parallel_inner_product(v.begin(),v.end(),q.begin(),op,rd,val,cut);}):run<MM>(p,[&]{return ba::parallel_inner_product(v.begin(),v.end(),q.begin(),op,rd,cut);}),want,"inner_product",("iter"+kf).c_str(),in); break;
   case 1: same(wv?run<MM>(p,[&]{return ba::parallel_inner_product(std::move(v2),std::move(q2),op,rd,val,cut);}):run<MM>(p,[&]{return ba::parallel_inner_product(std::move(v2),std::move(q2),op,rd,cut);}),want,"inner_product",("moved"+kf).c_str(),in); break;
   case 2: same(wv?run<MM>(p,[&]{return ba::parallel_inner_product(AS_CONT(v2),AS_CONT(q2),op,rd,val,cut);}):run<MM>(p,[&]{return ba::parallel_inner_product(AS_CONT(v2),AS_CONT(q2),op,rd,cut);}),want,"inner_product",("cont"+kf).c_str(),in); break;
   case 3: same(wv?run<MM>(p,[&]{return ba::parallel_inner_product(l.begin(),l.end(),lq.begin(),op,rd,val,cut);}):run<MM>(p,[&]{return ba::parallel_inner_product(l.begin(),l.end(),lq.begin(),op,rd,cut);}),want,"inner_product",("list"+kf).c_str(),in); break; }
  if(snap(v)!=sv||snap(q)!=sq) mon::fail("modified:inner_product","inner_product changed its input");
  c.sig(mon::hstr(in.c_str())); }
#if !THROWMODE
SCENARIO(inner_product_empty,12,200){ int n=0; long cut=gen_cut(c.rng,0); int w; SP& p=pools().pick(c.rng,w); auto cx=ctx(c.rng,n); cx->shortcut=true; VE v,q; INIT typedef M<false> MM; MM val(2*c.rng(100)+1,c.rng(1000)); Op op(cx); Comp<false> rd(cx);
  if(c.rng(2)) same(run<MM>(p,[&]{return ba::parallel_inner_product(AS_CONT(v),AS_CONT(q),op,rd,val,cut);}),val,"inner_product","cont,value,empty",in); else same(run<MM>(p,[&]{return ba::parallel_inner_product(AS_CONT(v),AS_CONT(q),op,rd,cut);}),MM(),"inner_product","cont,empty",in);
  c.sig(c.rng.next()); }
#endif
#else
template<bool ID> struct OutM { std::vector<M<ID>> v; int n; enum{G=6}; explicit OutM(int n_):n(n_){ for(int i=0;i<n+2*G;++i) v.emplace_back(0xABCD,i); }
  auto b(){ return v.begin()+G; }
  void check(std::vector<M<ID>> const& want,const char* alg,const char* form,std::string const& in){ for(int i=0;i<(int)v.size();++i){ if(i>=G&&i<G+n) continue; if(!(v[i]==M<ID>(0xABCD,i))){ mon::fail_s(std::string("out-of-range-write:")+alg+":"+form,in); break; } }
    for(int i=0;i<n;++i) if(!(v[G+i]==want[i])){ mon::fail_s(std::string("result:")+alg+":"+form,mon::fmt("element %d is %u*x+%u instead of %u*x+%u: ",i,v[G+i].a,v[G+i].b,want[i].a,want[i].b)+in); break; } } };
template<bool ID> void eqm(std::vector<M<ID>> const& got,std::vector<M<ID>> const& want,const char* alg,const char* form,std::string const& in){ if(got.size()!=want.size()) mon::fail_s(std::string("result:")+alg+":"+form,"wrong size: "+in); else for(size_t i=0;i<got.size();++i) if(!(got[i]==want[i])){ mon::fail_s(std::string("result:")+alg+":"+form,mon::fmt("element %d is %u*x+%u instead of %u*x+%u: ",(int)i,got[i].a,got[i].b,want[i].a,want[i].b)+in); break; } }
template<bool ID> std::vector<M<ID>> incl(std::vector<M<ID>> const& v,M<ID> r){ std::vector<M<ID>> o; for(auto&e:v){ r=M<ID>::comp(r,e); o.push_back(r);} return o; }
template<bool ID> std::vector<M<ID>> excl(std::vector<M<ID>> const& v,M<ID> r){ std::vector<M<ID>> o; for(auto&e:v){ o.push_back(r); r=M<ID>::comp(r,e);} return o; }
#define AS_CONTM(vec) ba::parallel_for(std::move(vec),[](MM const&){},cut)
#define DONE(R,EXPR) auto o=run<R>(p,[&]{return EXPR;}); if(chk_done(o,KEY(alg,form),in))
#if PART==3
template<bool ID> static void psum(mon::Case& c){ HEADM Comp<ID> f(cx); const char* alg=ID?"partial_sum":"partial_sum,default-is-not-identity"; const char* form="?"; VM want; { MM r; bool first=true; for(auto&e:v){ r=first?e:MM::comp(r,e); first=false; want.push_back(r);} } VM v2=v; OutM<ID> d(n);
  switch(c.rng(5)){ case 0:{ form="iter"; DONE(MM,ba::parallel_partial_sum(v.begin(),v.end(),d.b(),f,cut)) d.check(want,alg,form,in); eqm<ID>(v,v2,alg,"input",in); break; }
   case 1:{ form="moved,moved"; typedef std::pair<VM,VM> R; VM out(n); DONE(R,ba::parallel_partial_sum(std::move(v2),std::move(out),f,cut)){ eqm<ID>(o.val->second,want,alg,form,in); eqm<ID>(o.val->first,v,alg,"input",in);} break; }
   case 2:{ form="moved"; DONE(VM,ba::parallel_partial_sum(std::move(v2),f,cut)) eqm<ID>(*o.val,want,alg,form,in); break; }
   case 3:{ form="cont"; DONE(VM,ba::parallel_partial_sum(AS_CONTM(v2),f,cut)) eqm<ID>(*o.val,want,alg,form,in); break; }
   case 4:{ form="in place"; DONE(MM,ba::parallel_partial_sum(v.begin(),v.end(),v.begin(),f,cut)) eqm<ID>(v,want,alg,form,in); break; } }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(partial_sum,260,6000){ psum<true>(c); }
SCENARIO(partial_sum_no_identity,6,60){ psum<false>(c); }
#elif PART==4
template<bool ID,bool INC> static void scan(mon::Case& c){ HEADM Comp<ID> f(cx); MM init=c.rng.p(30)?MM():MM(2*c.rng(50)+1,c.rng(1000)); const char* alg=INC?"inclusive_scan":"exclusive_scan"; const char* form="?"; VM want=INC?incl<ID>(v,init):excl<ID>(v,init); VM v2=v; OutM<ID> d(n);
#define SCAN(...) [&]{ if constexpr(INC) return ba::parallel_inclusive_scan(__VA_ARGS__); else return ba::parallel_exclusive_scan(__VA_ARGS__); }()
  switch(c.rng(6)){ case 0:{ form="iter"; DONE(MM,SCAN(v.begin(),v.end(),d.b(),init,f,cut)) d.check(want,alg,form,in); eqm<ID>(v,v2,alg,"input",in); break; }
   case 1:{ form="moved,moved"; typedef std::pair<VM,VM> R; VM out(n); DONE(R,SCAN(std::move(v2),std::move(out),init,f,cut)){ eqm<ID>(o.val->second,want,alg,form,in); eqm<ID>(o.val->first,v,alg,"input",in);} break; }
   case 5:{ form="list"; std::list<MM> l(v.begin(),v.end()); DONE(MM,SCAN(l.begin(),l.end(),d.b(),init,f,cut)) d.check(want,alg,form,in); break; }
   default: if constexpr(INC){ switch(c.rng(3)){
    case 0:{ form="moved"; DONE(VM,ba::parallel_inclusive_scan(std::move(v2),init,f,cut)) eqm<ID>(*o.val,want,alg,form,in); break; }
    case 1:{ form="cont"; DONE(VM,ba::parallel_inclusive_scan(AS_CONTM(v2),init,f,cut)) eqm<ID>(*o.val,want,alg,form,in); break; }
    case 2:{ form="in place"; DONE(MM,ba::parallel_inclusive_scan(v.begin(),v.end(),v.begin(),init,f,cut)) eqm<ID>(v,want,alg,form,in); break; } } }
    else { form="iter"; DONE(MM,SCAN(v.begin(),v.end(),d.b(),init,f,cut)) d.check(want,alg,form,in); } }
  c.sig(mon::hstr(in.c_str())); }
SCENARIO(inclusive_scan,260,6000){ if(c.rng(2)) scan<true,true>(c); else scan<false,true>(c); }
SCENARIO(exclusive_scan,260,6000){ if(c.rng(2)) scan<true,false>(c); else scan<false,false>(c); }
#elif PART==5
struct Tr : Fn { using Fn::Fn; M<false> operator()(E const& e) const { e.use(); hit(); return tom(e); } };
SCENARIO(transform_scan,360,8000){ HEAD INIT typedef M<false> MM; typedef std::vector<MM> VM; bool inc=c.rng(2); const char* alg=inc?"transform_inclusive_scan":"transform_exclusive_scan"; const char* form="iter"; MM init(2*c.rng(50)+1,c.rng(1000)); Comp<false> f(cx); Tr t(cx); VM tv; for(auto&e:v) tv.push_back(tom(e)); VM want=inc?incl<false>(tv,init):excl<false>(tv,init); OutM<false> d(n); Snap sv=snap(v);
  if(c.rng(3)){ auto o=inc?run<MM>(p,[&]{return ba::parallel_transform_inclusive_scan(v.begin(),v.end(),d.b(),init,f,t,cut);}):run<MM>(p,[&]{return ba::parallel_transform_exclusive_scan(v.begin(),v.end(),d.b(),init,f,t,cut);}); if(chk_done(o,KEY(alg,form),in)) d.check(want,alg,form,in); }
  else { form="list"; std::list<E> l(v.begin(),v.end()); auto o=inc?run<MM>(p,[&]{return ba::parallel_transform_inclusive_scan(l.begin(),l.end(),d.b(),init,f,t,cut);}):run<MM>(p,[&]{return ba::parallel_transform_exclusive_scan(l.begin(),l.end(),d.b(),init,f,t,cut);}); if(chk_done(o,KEY(alg,form),in)) d.check(want,alg,form,in); }
  if(snap(v)!=sv) mon::fail("modified:transform_scan","input changed"); c.sig(mon::hstr(in.c_str())); }
#elif PART==6
// the general form: the user's own reduce, combine and scan functors
typedef std::vector<M<false>> VM6;
struct Rd : Fn { using Fn::Fn; M<false> operator()(VM6::iterator b,VM6::iterator e) const { hit(); M<false> r(1,0); for(;b!=e;++b){ b->use(); r=M<false>::comp(r,*b);} return r; } };
struct Sc : Fn { using Fn::Fn; void operator()(VM6::iterator b,VM6::iterator e,VM6::iterator o,M<false> i) const { hit(); i.use(); for(;b!=e;++b){ i=M<false>::comp(i,*b); *o++=i; } } };
SCENARIO(scan,260,6000){ constexpr bool ID=false; HEADM MM init(2*c.rng(50)+1,c.rng(1000)); const char* alg="scan"; const char* form="?"; VM want=incl<ID>(v,init); VM v2=v; OutM<ID> d(n); Rd r(cx); Comp<ID> cb(cx); Sc s(cx);
  switch(c.rng(4)){ case 0:{ form="iter"; DONE(MM,ba::parallel_scan(v.begin(),v.end(),d.b(),init,r,cb,s,cut)) d.check(want,alg,form,in); eqm<ID>(v,v2,alg,"input",in); break; }
   case 1:{ form="moved,moved"; typedef std::pair<VM,VM> R; VM out(n); DONE(R,ba::parallel_scan(std::move(v2),std::move(out),init,r,cb,s,cut)){ eqm<ID>(o.val->second,want,alg,form,in); eqm<ID>(o.val->first,v,alg,"input",in);} break; }
   case 2:{ form="moved"; DONE(VM,ba::parallel_scan(std::move(v2),init,r,cb,s,cut)) eqm<ID>(*o.val,want,alg,form,in); break; }
   case 3:{ form="cont"; DONE(VM,ba::parallel_scan(AS_CONTM(v2),init,r,cb,s,cut)) eqm<ID>(*o.val,want,alg,form,in); break; } }
  c.sig(mon::hstr(in.c_str())); }
#endif
#endif
