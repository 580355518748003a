// Factories for scheduler configurations. Include what you need: POOLS_* macros keep compile time down.
#pragma once
#include "mon.hpp"
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/post.hpp>
namespace ba = boost::asynchronous;
typedef ba::any_callable AC;
typedef ba::any_shared_scheduler_proxy<AC> SP;
typedef ba::any_loggable AL;
typedef ba::any_shared_scheduler_proxy<AL> LSP;
// reference counted pool maker: (workers, case) -> proxy
struct Pool { const char* name; std::function<SP(int,mon::Case&)> make; };
inline SP mk_single(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<>>>(); }
inline SP mk_tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>((size_t)n); }

template<class JOB,class F> struct DiagJob : ba::job_traits<JOB>::diagnostic_type { F f; explicit DiagJob(F x):f(std::move(x)){} void operator()(){ f(); } };
template<class JOB,class F> JOB mkjob(F f,const char* name="job"){
  if constexpr(std::is_same<JOB,AC>::value) return JOB(std::move(f));
  else { DiagJob<JOB,F> d(std::move(f)); typename ba::job_traits<JOB>::wrapper_type w(std::move(d)); w.set_name(name); return JOB(std::move(w)); } }
