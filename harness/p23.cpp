// P23: notifications reach exactly the subscribers, once each, in their own thread.
#include "pools.hpp"
#include <map>
#include <set>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/notification/notification_proxy.hpp>
using mon::fail_s; using mon::fmt;
namespace bs = ba::subscription;
#define K(k) (std::string("notify:")+k)
typedef bs::exact_topic<std::string> XT; typedef bs::channel_topic<> CT; typedef bs::no_topic NT; typedef bs::channel_topic<'.','*'> DT;
struct E { int p=0,s=0; std::string t; }; struct E2 { int p=0,s=0; std::string t; };
// ---- the documented matching rules, written independently
static std::vector<std::string> split(std::string s,char sep){ while(!s.empty()&&s.back()==sep) s.pop_back(); std::vector<std::string> v; if(s.empty()) return v; std::string cur; for(char ch:s){ if(ch==sep){ v.push_back(cur); cur.clear(); } else cur+=ch; } v.push_back(cur); return v; }
static bool model(std::string const& pat,std::string const& in,char sep='/',char wild='.'){ auto p=split(pat,sep),i=split(in,sep); if(p.size()>i.size()) return false; for(size_t k=0;k<p.size();++k) if(!(p[k].size()==1&&p[k][0]==wild)&&p[k]!=i[k]) return false; return true; }
static std::string rtopic(mon::Rng& r,bool wild){ static const char* w[]={"a","b","ab","aa"}; int n=r.range(1,3); std::string s; if(r(12)==0) s="/"; for(int i=0;i<n;++i){ if(i) s+="/"; s+=(wild&&r(4)==0)?".":w[r(3)]; } if(r(5)==0) s+="/"; return s; }
static bool hit(int kind,std::string const& sub,std::string const& pub){ return kind==0?true:kind==1?sub==pub:model(sub,pub); }
// one subscription
struct Rec { int sid=0; int kind=0; bool two=false; std::string topic; int mode=0; boost::thread::id tid; bool closed=false; bool called_closed=false; int bad=0; std::vector<std::pair<int,int>> got; ba::subscription_token tok{}; 
  // model side
  bool live=true; size_t want=0; std::vector<std::pair<int,int>> exp; };
struct Sv; 
struct Sv : ba::trackable_servant<> { std::vector<Rec*> mine; mon::Token tk{9};
  Sv(ba::any_weak_scheduler<> s,SP w):ba::trackable_servant<>(s,w){}
  ~Sv(){ for(auto r:mine) r->closed=true; }
  template<class Ev> void on(Rec* r,Ev const& e,std::string const* t){ mon::ev(); if(boost::this_thread::get_id()!=r->tid) r->bad|=1; if(r->closed) r->bad|=2; if(t&&*t!=e.t) r->bad|=4; if(tk.value()!=9) r->bad|=8; r->got.emplace_back(e.p,e.s);
    if(r->mode==2&&!r->closed) drop<Ev>(r);                                   // unsubscribes itself
    if constexpr(std::is_same<Ev,E>::value) if(r->mode==3){ E2 n; n.p=e.p; n.s=e.s*100+r->sid; n.t=e.t; send(r->kind,n); } } // publishes another event
  template<class Ev> void drop(Rec* r){ r->closed=true; if(r->kind==0) unsubscribe<Ev>(r->tok); else if(r->kind==1) unsubscribe<Ev>(r->tok,XT(r->topic)); else unsubscribe<Ev>(r->tok,CT(r->topic)); }
  template<class Ev> void send(int kind,Ev e){ if(kind==0) publish(std::move(e)); else if(kind==1){ XT t(e.t); publish(std::move(e),t); } else { CT t(e.t); publish(std::move(e),t); } }
  template<class Ev> void add(Rec* r){ r->tid=boost::this_thread::get_id(); mine.push_back(r); mon::Token c(3);
    if(r->kind==0){ if(r->mode==1) r->tok=subscribe([this,r,c](Ev const& e){ on(r,e,nullptr); r->closed=true; return c.value()!=3; }); else if(r->mode==4) r->tok=subscribe<Ev>([this,r,c](auto const& e){ on(r,e,nullptr); if(c.value()!=3) r->bad|=8; }); else if(r->mode==5) r->tok=subscribe([this,r,c](Ev const& e){ on(r,e,nullptr); return c.value()==3; }); else r->tok=subscribe([this,r,c](Ev const& e){ on(r,e,nullptr); if(c.value()!=3) r->bad|=8; }); }
    else if(r->kind==1) topic<Ev>(r,XT(r->topic),c); else topic<Ev>(r,CT(r->topic),c); }
  template<class Ev,class T> void topic(Rec* r,T const& t,mon::Token c){ 
    if(r->mode==1) r->tok=subscribe([this,r,c](Ev const& e,T const& x){ auto s=to_string(x); on(r,e,&s); r->closed=true; return c.value()!=3; },t); else if(r->mode==5) r->tok=subscribe([this,r,c](Ev const& e,T const& x){ auto s=to_string(x); on(r,e,&s); return c.value()==3; },t); else r->tok=subscribe([this,r,c](Ev const& e,T const& x){ auto s=to_string(x); on(r,e,&s); if(c.value()!=3) r->bad|=8; },t); }
  void sub(Rec* r){ if(r->two) add<E2>(r); else add<E>(r); }
  void unsub(Rec* r){ if(!r->closed){ if(r->two) drop<E2>(r); else drop<E>(r); } }
  void pub(int kind,bool two,int p,int s,std::string t){ if(two){ E2 e; e.p=p; e.s=s; e.t=t; send(kind,e); } else { E e; e.p=p; e.s=s; e.t=t; send(kind,e); } }
  void pubmany(int kind,int p,int from,int n,std::string t){ for(int i=0;i<n;++i){ pub(kind,false,p,from+i,t); if(i%7==0) mon::jitter(); } }
};
struct Px : ba::servant_proxy<Px,Sv>{ typedef ba::servant_proxy<Px,Sv>::callable_type callable_type; template<class S> Px(S s,SP w):ba::servant_proxy<Px,Sv>(s,w){}
  BOOST_ASYNC_FUTURE_MEMBER(sub) BOOST_ASYNC_FUTURE_MEMBER(unsub) BOOST_ASYNC_FUTURE_MEMBER(pub) BOOST_ASYNC_FUTURE_MEMBER(pubmany) };
template<class Ev> static void bare(int kind,Ev e){ if(kind==0) bs::publish(e); else if(kind==1) bs::publish(e,XT(e.t)); else bs::publish(e,CT(e.t)); }
struct Node { SP s; bool reg=false; bool pool=false; std::vector<std::unique_ptr<Px>> px; std::vector<std::vector<Rec*>> recs; };
struct World { mon::Case& c; SP ns,np; std::shared_ptr<bs::notification_proxy<>> n; std::vector<std::unique_ptr<Node>> node; std::vector<std::unique_ptr<Rec>> rec; int seq=0;
  World(mon::Case& cc):c(cc){ ns=mk_single(); np=mk_tp(1); n=std::make_shared<bs::notification_proxy<>>(ns,np); }
  int index(Node* d){ int i=0; for(auto&x:node){ if(x.get()==d) return i; ++i; } return -1; }
  void flush(){ for(int k=0;k<3;++k) for(auto&d:node){ if(!d->s.is_valid()) continue; if(d->pool){ auto f=d->s.execute_in_all_threads(ba::any_callable([]{})); for(auto&x:f) x.get(); } else ba::post_future(d->s,[]{}).get(); } }
  Node* add(bool pool,int w=2){ node.emplace_back(new Node); Node* d=node.back().get(); d->pool=pool; if(pool) d->s=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<>>>((size_t)w); else if(c.rng(2)) d->s=mk_single(); else d->s=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<>>>(); return d; }
  void reg(Node* d,bool wait=false){ bs::register_scheduler_to_notification(d->s.get_weak_scheduler(),n,wait).get(); d->reg=true; }
  Rec* mkrec(int kind,bool two,std::string t,int mode){ rec.emplace_back(new Rec); Rec* r=rec.back().get(); r->sid=(int)rec.size(); r->kind=kind; r->two=two; r->topic=t; r->mode=mode; return r; }
  // what an event published on node d must do
  void deliver(Node* d,int kind,bool two,int p,int s,std::string const& t){ std::vector<Rec*> again; Node* from=d; std::vector<std::pair<Node*,Rec*>> nested; 
    for(auto&x:node){ if(!x->s.is_valid()||(x.get()!=from&&!(x->reg&&from->reg))) continue; for(auto&v:x->recs) for(auto r:v){ if(!r->live||r->two!=two||r->kind!=kind||!hit(kind,r->topic,t)) continue; r->exp.emplace_back(p,s); if(r->mode==1||r->mode==2) r->live=false; if(r->mode==3&&!two) nested.emplace_back(x.get(),r); } }
    for(auto&q:nested) deliver(q.first,kind,true,p,s*100+q.second->sid,t); }
  void compare(const char* where,bool sorted=false){ for(auto&r:rec){ auto g=r->got,e=r->exp; if(r->bad){ fail_s(K("bad:")+where,fmt("subscription %d: %s%s%s%s",r->sid,r->bad&1?"called in another thread; ":"",r->bad&2?"called after unsubscribing or death; ":"",r->bad&4?"wrong topic handed over; ":"",r->bad&8?"data damaged":"")); r->bad=0; }
      if(sorted||r->two){ std::sort(g.begin(),g.end()); std::sort(e.begin(),e.end()); } if(g!=e){ fail_s(K("delivery:")+where,fmt("subscription %d (kind %d topic '%s' mode %d): %zu events received, %zu expected, last %d/%d",r->sid,r->kind,r->topic.c_str(),r->mode,g.size(),e.size(),g.empty()?-1:g.back().second,e.empty()?-1:e.back().second)); r->got=r->exp; } } }
  void end(){ for(auto&d:node) d->px.clear(); for(auto&d:node) d->s=SP(); n.reset(); ns=SP(); np=SP(); } };

// ---- topics alone
SCENARIO(topics,400,8000){ auto& r=c.rng; for(int i=0;i<60;++i){ static const char al[]="ab//.."; auto mk=[&](bool free_){ if(!free_) return rtopic(r,true); std::string s; int n=r(7); for(int k=0;k<n;++k) s+=al[r(6)]; return s; }; bool fr=r(3)==0; std::string p=mk(fr),q=r(4)==0?p+(r(2)?"/":"/b"):mk(fr); mon::ev();
    if(!CT(p).matches(CT(p))||!CT(p).matches(p)) fail_s(K("reflexive"),fmt("topic '%s' does not match itself",p.c_str()));
    // an empty level never counts as a channel name for a wildcard: only compare where the rules are clear
    bool clear=q.find("//")==std::string::npos&&p.find("//")==std::string::npos&&(q.empty()||q[0]!='/'||(!p.empty()&&p[0]=='/'))&&!(q.empty()&&!p.empty()); 
    if(clear&&CT(p).matches(q)!=model(p,q)) fail_s(K("match"),fmt("subscribed '%s' published '%s': %d expected %d",p.c_str(),q.c_str(),(int)CT(p).matches(q),(int)model(p,q))); if(CT(p).matches(q)!=CT(p).matches(CT(q))) fail_s(K("match_overload"),"string and topic disagree");
    std::string dp=p,dq=q; for(auto*s:{&dp,&dq}) for(auto&ch:*s) ch=ch=='/'?'.':ch=='.'?'*':ch; if(DT(dp).matches(DT(dq))!=CT(p).matches(CT(q))) fail_s(K("match_custom"),fmt("'%s' '%s'",dp.c_str(),dq.c_str()));
    if(XT(p).matches(XT(q))!=(p==q)||XT(p).matches(q)!=(p==q)||(XT(p)==XT(q))!=(p==q)||(XT(p)!=XT(q))!=(p!=q)) fail_s(K("exact"),"exact topics"); if((CT(p)==CT(q))!=(p==q)||(CT(p)!=CT(q))!=(p!=q)) fail_s(K("equal"),"equality of channel topics");
    if(to_string(CT(p))!=p||to_string(XT(p))!=p) fail_s(K("to_string"),"name of the topic"); c.sig(mon::hstr(p.c_str())*31+mon::hstr(q.c_str())); } }
// ---- arbitrary histories, one step at a time, against the model
static void history(mon::Case& c,bool late){ c.chaos(); World w(c); auto& r=c.rng; int ns=r.range(1,3); bool pool=r(2); for(int i=0;i<ns;++i) w.add(false); Node* pn=pool?w.add(true,r.range(1,3)):nullptr; if(!late) for(auto&d:w.node) w.reg(d.get(),r(2)); w.flush(); std::string log; uint64_t h=0;
  std::vector<std::string> tops; for(int i=0;i<4;++i) tops.push_back(rtopic(r,true)); int steps=r.range(8,40);
  for(int st=0;st<steps;++st){ Node* d=w.node[(size_t)r(ns)].get(); int op=r(20); int kind=r(3); bool two=r(5)==0; 
    auto pick=[&](Node* n)->int{ if(n->px.empty()) return -1; return r((int)n->px.size()); };
    if(!d->s.is_valid()) continue;
    if(op<2||d->px.empty()){ d->px.emplace_back(new Px(d->s,w.np)); d->recs.emplace_back(); if(log.size()<1800) log+=fmt("new%d.%zu ",w.index(d),d->px.size()-1); }
    else if(op<8){ int k=pick(d); std::string t=r(4)?tops[(size_t)r(4)]:rtopic(r,true); int m=r(8); int mode=two&&m==3?0:m>5?0:m; Rec* x=w.mkrec(kind,two,t,mode); if(r(2)){ d->px[(size_t)k]->sub(x).get(); } else { d->px[(size_t)k]->sub(x).get(); w.flush(); } d->recs[(size_t)k].push_back(x); if(log.size()<1800) log+=fmt("sub#%d(%s,k%d,m%d) ",x->sid,t.c_str(),kind,mode); }
    else if(op<10){ int k=pick(d); auto& v=d->recs[(size_t)k]; if(!v.empty()){ Rec* x=v[(size_t)r((int)v.size())]; d->px[(size_t)k]->unsub(x).get(); x->live=false; if(log.size()<1800) log+=fmt("unsub#%d ",x->sid); } }
    else if(op<11){ int k=pick(d); for(auto x:d->recs[(size_t)k]) x->live=false; d->px.erase(d->px.begin()+k); d->recs.erase(d->recs.begin()+k); if(log.size()<1800) log+=fmt("kill%d ",k); }
    else if(op==11&&late){ Node* x=w.node[(size_t)r((int)w.node.size())].get(); if(!x->reg&&x->s.is_valid()){ w.flush(); w.reg(x,r(2)); if(log.size()<1800) log+="register "; } }
    else if(op==12&&r(4)==0&&ns>1){ for(auto&v:d->recs) for(auto x:v) x->live=false; d->px.clear(); d->recs.clear(); w.flush(); d->s=SP(); if(log.size()<1800) log+="dropsched "; }
    else { w.flush(); std::string t=r(3)?tops[(size_t)r(4)]:rtopic(r,r(4)==0); int s=++w.seq; if(pn&&r(4)==0){ w.deliver(pn,kind,two,99,s,t); ba::post_future(pn->s,[=]{ if(two){ E2 e; e.p=99; e.s=s; e.t=t; bare(kind,e); } else { E e; e.p=99; e.s=s; e.t=t; bare(kind,e); } }).get(); }
      else { int k=pick(d); w.deliver(d,kind,two,w.index(d),s,t); d->px[(size_t)k]->pub(kind,two,w.index(d),s,t).get(); } w.flush(); if(log.size()<1800) log+=fmt("pub%d(%s,k%d,%d) ",s,t.c_str(),kind,(int)two); w.compare("history"); for(auto&x:w.rec) h=mon::mix(h*5+x->got.size()); } }
  c.say("%s",log.c_str()); w.end(); w.compare("end"); mon::expect_no_live(K("live").c_str()); c.sig(h+(uint64_t)w.seq); }
SCENARIO(histories,160,3000){ history(c,false); }
SCENARIO(late_registration,90,1500){ history(c,true); }
// ---- publication racing with subscription changes
SCENARIO(concurrent,100,1000){ c.chaos(); World w(c); auto& r=c.rng; int ns=r.range(2,4); int kind=r(3); for(int i=0;i<ns;++i) w.add(false); Node* pn=w.add(true,2); for(auto&d:w.node) w.reg(d.get()); for(int i=0;i<ns;++i) for(int k=0;k<2;++k){ auto d=w.node[(size_t)i].get(); d->px.emplace_back(new Px(d->s,w.np)); d->recs.emplace_back(); }
  std::string top="a/b"; const char* pats[]={"a","a/b","a/.","."}; int per=r.range(10,60); c.say("scheds=%d kind=%d n=%d",ns,kind,per);
  // stable subscriptions: one or several in servant 0 of each scheduler
  std::vector<Rec*> stable; for(int i=0;i<ns;++i){ int m=r.range(1,2); for(int k=0;k<m;++k){ Rec* x=w.mkrec(kind,false,kind==2?pats[r(4)]:top,0); w.node[(size_t)i]->px[0]->sub(x).get(); stable.push_back(x); } } w.flush();
  std::vector<std::future<void>> f; for(int i=0;i<ns;++i) f.push_back(w.node[(size_t)i]->px[0]->pubmany(kind,i,0,per,top)); 
  // tasks of the pool publish too, each its own publisher
  std::vector<std::future<void>> g; int pj=r(10); for(int j=0;j<pj;++j) g.push_back(ba::post_future(pn->s,[=]{ for(int i=0;i<5;++i){ E e; e.p=100+j; e.s=i; e.t=top; bare(kind,e); mon::jitter(); } }));
  // churn in servant 1 of each
  int rounds=r.range(1,12); std::vector<Rec*> churn; for(int q=0;q<rounds;++q){ int i=r(ns); auto d=w.node[(size_t)i].get(); switch(r(4)){ case 0: case 1: { Rec* x=w.mkrec(kind,false,kind==2?pats[r(4)]:top,r(4)?0:2); d->recs[1].push_back(x); churn.push_back(x); d->px[1]->sub(x); break; } case 2: if(!d->recs[1].empty()){ Rec* x=d->recs[1][(size_t)r((int)d->recs[1].size())]; d->px[1]->unsub(x); } break; default: d->px.pop_back(); d->recs.pop_back(); d->px.emplace_back(new Px(d->s,w.np)); d->recs.emplace_back(); } if(r(2)) mon::nap_us(r(300)); }
  for(auto&x:f) x.get(); for(auto&x:g) x.get(); w.flush();
  auto seqs=[&](Rec* x){ std::map<int,std::vector<int>> m; for(auto&q:x->got) m[q.first].push_back(q.second); return m; };
  for(auto x:stable){ auto m=seqs(x); uint64_t want=(uint64_t)(ns+pj); if(m.size()!=want) fail_s(K("stable_publishers"),fmt("events of %zu publishers, expected %d+%d",m.size(),ns,pj)); for(auto&q:m){ int n=q.first>=100?5:per; std::vector<int> e; for(int i=0;i<n;++i) e.push_back(i); if(q.second!=e){ auto s=q.second; std::sort(s.begin(),s.end()); fail_s(K((s==e?"stable_order":"stable_delivery")),fmt("publisher %d: %zu events received of %d%s",q.first,q.second.size(),n,s==e?", in another order":"")); } } }
  for(auto x:churn){ if(x->mode==2&&x->got.size()>1) fail_s(K("self_unsub"),"event after unsubscribing itself"); for(auto&q:seqs(x)) for(size_t i=1;i<q.second.size();++i) if(q.second[i]!=q.second[i-1]+1){ fail_s(K("churn_gap"),fmt("publisher %d: event %d follows %d",q.first,q.second[i],q.second[i-1])); break; } }
  for(auto&x:w.rec) if(x->bad) fail_s(K("bad:concurrent"),fmt("subscription %d: flags %d (1 thread, 2 after unsubscribing or death, 4 topic, 8 data)",x->sid,x->bad));
  uint64_t h=0; for(auto&x:w.rec) for(auto&q:x->got) h=mon::mix(h*7+(uint64_t)q.first*1000+(uint64_t)q.second); w.end(); mon::expect_no_live(K("live").c_str()); c.sig(h); }
