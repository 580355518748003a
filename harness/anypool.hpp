// a random pool of any kind for jobs of type JOB (any_callable: PART 1, any_loggable: PART 2)
#pragma once
#include "pools.hpp"
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
enum { PK_SINGLE, PK_TP, PK_DEQUE, PK_CONTAINER, PK_MQ, PK_STEALTP, PK_STEALMQ, PK_COMPOSITE, PK_ASIO, PK_COUNT };
static const char* pool_name[]={"single","tp","deque","container","mq","stealtp","stealmq","composite","asio"};
template<class J> int pool_kinds(){ return std::is_same<J,AC>::value?PK_COUNT:PK_ASIO; }
template<class J> ba::any_shared_scheduler_proxy<J> any_pool(int k,size_t w){ typedef ba::lockfree_queue<J> L; typedef ba::threadsafe_list<J> T; typedef ba::guarded_deque<J> D;
  switch(k){ case PK_SINGLE: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<L>>(); case PK_TP: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<L>>(w); case PK_DEQUE: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<D>>(w);
  case PK_CONTAINER: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<J>>>(w,ba::any_queue_container_config<L>(1),ba::any_queue_container_config<T>(2)); case PK_MQ: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<T>>(w);
  case PK_STEALTP: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<D,ba::no_cpu_load_saving,true>>(w); case PK_STEALMQ: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<L,ba::default_find_position<>,ba::no_cpu_load_saving,true>>(w);
  case PK_COMPOSITE: return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(any_pool<J>(PK_TP,w),ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<T>>((size_t)1));
  default: if constexpr(std::is_same<J,AC>::value) return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(w); else return any_pool<J>(PK_TP,w); } }
