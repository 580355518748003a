From 296ab46badd5068817310656d6f0b7aa04dfb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 01/72] fix: stealing_multiqueue_threadpool_scheduler reports
 executed jobs (shadowed popped lost jobs at shutdown)

---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..99d1b51 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From 2762d7d6c8b8ee3a2314df12962d9e4cd3167c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/72] fix: default_random_push_policy no longer shares an
 unsynchronised random engine between posting threads

---
 boost/asynchronous/queue/find_queue_position.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/queue/find_queue_position.hpp b/boost/asynchronous/queue/find_queue_position.hpp
index 931965d..16b976c 100644
--- a/boost/asynchronous/queue/find_queue_position.hpp
+++ b/boost/asynchronous/queue/find_queue_position.hpp
@@ -13,6 +13,8 @@
 #include <atomic>
 #include <random>
 #include <cstddef>
+#include <functional>
+#include <thread>
 
 namespace boost { namespace asynchronous
 {
@@ -30,13 +32,14 @@ struct sequential_push_policy
 template <std::size_t  max_val=999>
 struct default_random_push_policy
 {
-    default_random_push_policy():m_generator(),m_distribution(0,max_val){}
     std::size_t find_any_position()const
     {
-        return m_distribution(m_generator);
+        // called concurrently from all posting threads => one engine per thread
+        static thread_local std::default_random_engine generator(
+                    static_cast<std::default_random_engine::result_type>(std::hash<std::thread::id>()(std::this_thread::get_id())));
+        std::uniform_int_distribution<std::size_t> distribution(0,max_val);
+        return distribution(generator);
     }
-    mutable std::default_random_engine m_generator;
-    mutable std::uniform_int_distribution<std::size_t> m_distribution;
 };
 
 template <class RandomPositionPolicy = boost::asynchronous::default_random_push_policy<> >
-- 
2.43.0


From 8095b32e1fde64c0ca001b430bd22572c8c358b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 03/72] fix: lockfree_queue and lockfree_stack destroy the jobs
 they still own

---
 boost/asynchronous/queue/lockfree_queue.hpp | 9 +++++++++
 boost/asynchronous/queue/lockfree_stack.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 18a9c94..4a86693 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -68,6 +68,15 @@ public:
 #else
     lockfree_queue(std::size_t size=16):m_queue(size){}
 #endif
+    // jobs still in the queue are owned by the queue
+    ~lockfree_queue()
+    {
+        JOB* jptr;
+        while (m_queue.pop(jptr))
+        {
+            delete jptr;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
 
     void push(JOB && j, std::size_t)
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 9d30229..6b7c8c3 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -57,6 +57,15 @@ public:
 #else
     lockfree_stack(std::size_t size=16):m_queue(size){}
 #endif
+    // jobs still in the queue are owned by the queue
+    ~lockfree_stack()
+    {
+        JOB* jptr;
+        while (m_queue.pop(jptr))
+        {
+            delete jptr;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-- 
2.43.0


From 9747d5dad1c009a612db7038dfe006a614a35e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 04/72] fix: lock-free queue size counters can no longer
 underflow (count before publishing)

---
 boost/asynchronous/queue/detail/lockfree_size.hpp | 4 ++--
 boost/asynchronous/queue/lockfree_queue.hpp       | 9 ++++++---
 boost/asynchronous/queue/lockfree_spsc_queue.hpp  | 9 ++++++---
 boost/asynchronous/queue/lockfree_stack.hpp       | 9 ++++++---
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/queue/detail/lockfree_size.hpp b/boost/asynchronous/queue/detail/lockfree_size.hpp
index 360ab0d..4542f53 100644
--- a/boost/asynchronous/queue/detail/lockfree_size.hpp
+++ b/boost/asynchronous/queue/detail/lockfree_size.hpp
@@ -47,13 +47,13 @@ struct lockfree_size_max_size
     {}
     void increase()
     {
-        ++m_size;
+        std::size_t current = ++m_size;
         // actualize the max size this queue ever had, useful for diagnostics
         bool done = false;
         do
         {
             auto old = m_max_size.load();
-            done = m_max_size.compare_exchange_strong(old,std::max(m_size.load(),old));
+            done = m_max_size.compare_exchange_strong(old,std::max(current,old));
         }
         while(!done);
     }
diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 4a86693..fefee76 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -82,30 +82,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_spsc_queue.hpp b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
index 48c2371..01e402f 100644
--- a/boost/asynchronous/queue/lockfree_spsc_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
@@ -58,28 +58,31 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(j))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 6b7c8c3..2db06c6 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -70,30 +70,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // count first: the job can be popped as soon as it is in
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
-- 
2.43.0


From dbc5eabbea7d348047d219f16fc9c48b8633ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 05/72] fix: guarded_deque maximum size includes the job being
 pushed

---
 boost/asynchronous/queue/guarded_deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/guarded_deque.hpp b/boost/asynchronous/queue/guarded_deque.hpp
index f595aae..87d96e7 100755
--- a/boost/asynchronous/queue/guarded_deque.hpp
+++ b/boost/asynchronous/queue/guarded_deque.hpp
@@ -66,7 +66,7 @@ public:
     void push(JOB && j, std::size_t)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
+        m_max_size = std::max(m_max_size,m_jobs.size()+1);
         m_jobs.emplace_front(std::forward<JOB>(j));
         lock.unlock();
         m_not_empty.notify_one();
@@ -74,7 +74,7 @@ public:
     void push(JOB && j)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
+        m_max_size = std::max(m_max_size,m_jobs.size()+1);
         m_jobs.emplace_front(std::forward<JOB>(j));
         lock.unlock();
         m_not_empty.notify_one();
@@ -83,7 +83,7 @@ public:
     void push(JOB const& j, std::size_t=0)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
+        m_max_size = std::max(m_max_size,m_jobs.size()+1);
         m_jobs.push_front(j);
         lock.unlock();
         m_not_empty.notify_one();
-- 
2.43.0


From 220de77b01893cef58c3f442e1575853f2b5fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 06/72] fix: threadsafe_list push no longer loses the wakeup of
 a blocked pop

---
 boost/asynchronous/queue/threadsafe_list.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..63c2c72 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,7 +79,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
     void push(JOB && j)
     {
@@ -91,7 +91,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
     // todo remove when type_erasure supports rvalue ref
     void push(JOB const& j, std::size_t=0)
@@ -104,7 +104,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
 
     JOB pop()
@@ -125,6 +125,12 @@ public:
     }
 
 private:
+    void notify_not_empty()
+    {
+        // a consumer checks for data and starts waiting under m_head_mutex. Without it, the notification could get lost in between
+        boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        m_data_cond.notify_one();
+    }
     node* get_tail()
     {
         boost::lock_guard<boost::mutex> tail_lock(m_tail_mutex);
-- 
2.43.0


From 870431a1b1d3026ba50360e0512a85db5e61fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 07/72] fix: servant_proxy POST members no longer add the
 servant index to the priority twice

---
 boost/asynchronous/servant_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..ce66060 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -63,7 +63,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = 100000 * this->m_offset_id;                                                                             \
+        std::size_t p = 0;                                                                                                      \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -74,7 +74,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
+        std::size_t p = prio;                                                                                                   \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -88,7 +88,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t prio = 100000 * this->m_offset_id;                                                                                      \
+        std::size_t prio = 0;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
@@ -101,7 +101,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                                  \
+        std::size_t p = prio;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-- 
2.43.0


From 7253f8cdcd7e53bfe1e5e04030ca9799d451d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 08/72] fix: servant destruction is posted to the servant's own
 queue of a multiple_thread_scheduler

---
 boost/asynchronous/servant_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index ce66060..f1fb5e0 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -609,7 +609,8 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            // to the queue of this servant
+            post(std::move(a),ServantProxy::get_dtor_prio());
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 5f5846ba264056fdac8820d12c7b6b6d4095581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 09/72] fix: dynamic_servant_proxy_cast keeps the servant index
 of a multiple_thread_scheduler

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index f1fb5e0..4586416 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -482,7 +482,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
-- 
2.43.0


From 7ec3a22029e4dbf1540ce810f3dcd196e03097ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 10/72] fix: assigning to a servant_proxy no longer destroys
 the old servant in the caller's thread

---
 boost/asynchronous/servant_proxy.hpp | 49 +++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 4586416..835c196 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -604,15 +604,7 @@ public:
      */
     ~servant_proxy()
     {
-        if (!!m_servant)
-        {
-            servant_deleter n(std::move(m_servant));
-            typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
-            a.set_name(ServantProxy::get_dtor_name());
-            // to the queue of this servant
-            post(std::move(a),ServantProxy::get_dtor_prio());
-            m_servant.reset();
-        }
+        release_servant();
         m_proxy.reset();
     }
     // we provide destructor so we need to provide the other 4
@@ -624,7 +616,18 @@ public:
     /*!
      * \brief Move assignment.
      */
-    servant_proxy& operator=(servant_proxy&&)     =default;
+    servant_proxy& operator=(servant_proxy&& rhs)
+    {
+        if (this != &rhs)
+        {
+            // the servant we hold so far has to be destroyed in its own thread
+            release_servant();
+            m_proxy = std::move(rhs.m_proxy);
+            m_servant = std::move(rhs.m_servant);
+            m_offset_id = rhs.m_offset_id;
+        }
+        return *this;
+    }
 
     /*!
      * \brief Copy constructor.
@@ -634,7 +637,18 @@ public:
     /*!
      * \brief Copy assignment.
      */
-    servant_proxy& operator=(servant_proxy const&)=default;
+    servant_proxy& operator=(servant_proxy const& rhs)
+    {
+        if (this != &rhs)
+        {
+            // the servant we hold so far has to be destroyed in its own thread
+            release_servant();
+            m_proxy = rhs.m_proxy;
+            m_servant = rhs.m_servant;
+            m_offset_id = rhs.m_offset_id;
+        }
+        return *this;
+    }
 
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
     void post(callable_type job, std::size_t prio) const
@@ -690,6 +704,19 @@ public:
     std::size_t m_offset_id;
 
 private:
+    // post the release of our servant to its thread
+    void release_servant()
+    {
+        if (!!m_servant)
+        {
+            servant_deleter n(std::move(m_servant));
+            typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
+            a.set_name(ServantProxy::get_dtor_name());
+            // to the queue of this servant
+            post(std::move(a),ServantProxy::get_dtor_prio());
+            m_servant.reset();
+        }
+    }
     // safe creation of servant in our thread ctor is trivial or told us so
     template <typename S,typename... Args>
     typename std::enable_if<
-- 
2.43.0


From 3eb8303f1d0604d5e732df1b586733e8ebd671d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 11/72] fix: multiple_thread_scheduler interruptible_post and
 enable_queue decode the servant index like post

---
 .../scheduler/multiple_thread_scheduler.hpp            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..504fb9a 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
@@ -327,12 +328,13 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        if (queue_prio >= m_queues->size())
+        std::size_t servant_index = (queue_prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[queue_prio].m_queues->enable_queue(queue_prio,enable);
+        (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
     // try to execute a job, return true
-- 
2.43.0


From 7e54016c580fb730a24b6789d637906c960f9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 12/72] fix: parallel_search, parallel_search_n and
 parallel_find_end look for matches crossing a split and keep the functor of
 their subtasks

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 14 ++++++++------
 boost/asynchronous/algorithm/parallel_search.hpp   | 13 ++++++++-----
 boost/asynchronous/algorithm/parallel_search_n.hpp | 10 +++++++---
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..54ce6da 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -60,9 +60,9 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -80,12 +80,14 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                     else
                                     {
                                         // check in overlap region
+                                        // (matches crossing the boundary, at most needle size - 1 elements on each side)
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        auto dist2 = std::distance(beg2,end2);
-
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        auto overlap = (beg2 == end2) ? 0 : std::distance(beg2,end2) - 1;
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..9314f6c 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -60,9 +60,9 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -80,11 +80,14 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                     else
                                     {
                                         // check in overlap region
+                                        // (matches crossing the boundary, at most needle size - 1 elements on each side)
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        auto overlap = (beg2 == end2) ? 0 : std::distance(beg2,end2) - 1;
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..e3339ae 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
@@ -75,10 +75,14 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                     else
                                     {
                                         // check in overlap region
+                                        // (matches crossing the boundary, at most count - 1 elements on each side)
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        auto overlap = (count > 0) ? count - 1 : 0;
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From fd6e14c2858478129d12537fa2d128d8710deb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 13/72] fix: parallel_lexicographical_compare decides on the
 first differing elements and cuts both ranges at the same position

---
 .../parallel_lexicographical_compare.hpp      | 117 +++++++++---------
 1 file changed, 61 insertions(+), 56 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..9262cba 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -32,43 +32,57 @@ namespace boost { namespace asynchronous
 {
 namespace detail
 {
-// version for iterators
+// three-way sequential comparison: < 0 if first range is less, > 0 if second range is less, 0 if equivalent
+template <class Iterator1, class Iterator2, class Func>
+int lexicographical_compare_three_way(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func& func)
+{
+    for (; beg1 != end1 && beg2 != end2; ++beg1, ++beg2)
+    {
+        if (func(*beg1,*beg2))
+            return -1;
+        if (func(*beg2,*beg1))
+            return 1;
+    }
+    if (beg1 == end1)
+        return (beg2 == end2) ? 0 : -1;
+    return 1;
+}
+// three-way parallel comparison
 template <class Iterator1, class Iterator2, class Func,class Job>
-struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
+struct parallel_lexicographical_compare_three_way_helper: public boost::asynchronous::continuation_task<int>
 {
-    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
+    parallel_lexicographical_compare_three_way_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
-        : boost::asynchronous::continuation_task<bool>(task_name)
+        : boost::asynchronous::continuation_task<int>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
         ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
-        boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        boost::asynchronous::continuation_result<int> task_res = this->this_task_result();
         try
         {
             // advance up to cutoff
             Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
+            // cut second range at the same position
+            Iterator2 it2 = beg2_;
+            boost::asynchronous::detail::safe_advance(it2,std::distance(beg1_,it1),end2_);
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_,func_));
+                task_res.set_value(boost::asynchronous::detail::lexicographical_compare_three_way(beg1_,end1_,beg2_,end2_,func_));
             }
             else
             {
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res](std::tuple<boost::asynchronous::expected<int>,boost::asynchronous::expected<int>> res) mutable
                             {
                                 try
                                 {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
+                                    int r1 = std::get<0>(res).get();
+                                    int r2 = std::get<1>(res).get();
+                                    task_res.set_value(r1 != 0 ? r1 : r2);
                                 }
                                 catch(...)
                                 {
@@ -76,9 +90,9 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
                                 }
                             },
                             // recursive tasks
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_three_way_helper<Iterator1,Iterator2,Func,Job>
                                     (beg1_,it1,beg2_,it2,func_,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_three_way_helper<Iterator1,Iterator2,Func,Job>
                                     (it1,end1_,it2,end2_,func_,cutoff_,this->get_name(),prio_)
                 );
             }
@@ -96,55 +110,37 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
     long cutoff_;
     std::size_t prio_;
 };
-template <class Iterator1, class Iterator2,class Job>
-struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<bool>
+// version for iterators
+template <class Iterator1, class Iterator2, class Func,class Job>
+struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
 {
-    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2,long cutoff,
+    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
         : boost::asynchronous::continuation_task<bool>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
-        , cutoff_(cutoff),prio_(prio)
+        ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
         try
         {
-            // advance up to cutoff
-            Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
-            // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
-            {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_));
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+            boost::asynchronous::create_callback_continuation_job<Job>(
+                        // called when the three-way comparison is done, set our result
+                        [task_res](std::tuple<boost::asynchronous::expected<int>> res) mutable
+                        {
+                            try
                             {
-                                try
-                                {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (beg1_,it1,beg2_,it2,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (it1,end1_,it2,end2_,cutoff_,this->get_name(),prio_)
-                );
-            }
+                                task_res.set_value(std::get<0>(res).get() < 0);
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
+                        },
+                        parallel_lexicographical_compare_three_way_helper<Iterator1,Iterator2,Func,Job>
+                                (beg1_,end1_,beg2_,end2_,func_,cutoff_,this->get_name(),prio_)
+            );
         }
         catch(...)
         {
@@ -155,9 +151,18 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
     Iterator1 end1_;
     Iterator2 beg2_;
     Iterator2 end2_;
+    Func func_;
     long cutoff_;
     std::size_t prio_;
 };
+struct lexicographical_compare_less
+{
+    template <class T1, class T2>
+    bool operator()(T1 const& i, T2 const& j)const
+    {
+        return i < j;
+    }
+};
 }
 
 // versions for iterators
@@ -186,8 +191,8 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                (beg1,end1,beg2,end2,cutoff,task_name,prio));
+            (boost::asynchronous::detail::parallel_lexicographical_compare_helper<Iterator1,Iterator2,boost::asynchronous::detail::lexicographical_compare_less,Job>
+                (beg1,end1,beg2,end2,boost::asynchronous::detail::lexicographical_compare_less(),cutoff,task_name,prio));
 }
 }}
 
-- 
2.43.0


From c39495db93e0fe7c89ecde8ec0528d567e250866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 14/72] fix: parallel_is_partitioned no longer reads an empty
 range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..2d98606 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -138,6 +138,12 @@ struct parallel_is_partitioned_helper: public boost::asynchronous::continuation_
         boost::asynchronous::continuation_result<bool> task_res = this_task_result();
         try
         {
+            // an empty range is partitioned
+            if (beg_ == end_)
+            {
+                task_res.set_value(true);
+                return;
+            }
             boost::asynchronous::create_callback_continuation_job<Job>(
                         // called when subtasks are done, set our result
                         [task_res]
-- 
2.43.0


From 0f4741b57761ea8f5ab8c34ea0db4d28668cecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 15/72] fix: parallel_transform of two ranges takes its second
 operand from the second range after a split

---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..a6401c5 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From 6399689186ce491ee97e408b09731456a0526182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 16/72] fix: parallel_merge keeps equivalent elements of the
 first range before those of the second

---
 .../asynchronous/algorithm/parallel_merge.hpp | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..2efdcca 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -54,7 +54,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    helper1(std::move(task_res));
                 }
                 else
                 {
@@ -63,7 +63,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    helper2(std::move(task_res));
                 }
             }
         }
@@ -72,14 +72,32 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             task_res.set_exception(std::current_exception());
         }
     }
-    template <class It1, class It2, class OutIt>
-    void helper(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    // split at the middle of the first range
+    void helper1(boost::asynchronous::continuation_result<void> task_res)const
     {
-        auto it1 = (beg1+ (end1 - beg1)/2);
-        auto it2 = std::lower_bound(beg2,end2, *it1,func_);
-        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
+        auto it1 = (beg1_+ (end1_ - beg1_)/2);
+        // equivalent elements of the second range come after those of the first one
+        auto it2 = std::lower_bound(beg2_,end2_, *it1,func_);
+        auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
         // TODO move?
         *it3 = *it1;
+        merge_both(it1,it1+1,it2,it2,it3,std::move(task_res));
+    }
+    // split at the middle of the second range
+    void helper2(boost::asynchronous::continuation_result<void> task_res)const
+    {
+        auto it2 = (beg2_+ (end2_ - beg2_)/2);
+        // equivalent elements of the first range come before those of the second one
+        auto it1 = std::upper_bound(beg1_,end1_, *it2,func_);
+        auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+        // TODO move?
+        *it3 = *it2;
+        merge_both(it1,it1,it2,it2+1,it3,std::move(task_res));
+    }
+    // merges what is before the element written to it3, and what is after
+    void merge_both(Iterator1 first_end1, Iterator1 second_beg1, Iterator2 first_end2, Iterator2 second_beg2, OutIterator it3,
+                    boost::asynchronous::continuation_result<void> task_res)const
+    {
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +116,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1_,first_end1,beg2_,first_end2,out_,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (second_beg1,end1_,second_beg2,end2_,it3+1,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From b2ee57adce9231ec9097a60dde449408baa7b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 17/72] fix: stable parallel sorts only reverse strictly
 reverse sorted ranges

---
 .../algorithm/parallel_is_sorted.hpp             | 12 ++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_sorted.hpp b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
index 92cb107..d99e3f6 100644
--- a/boost/asynchronous/algorithm/parallel_is_sorted.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
@@ -117,6 +117,18 @@ namespace detail
         }
         Func func_;
     };
+    // a range can be reversed without changing the order of equivalent elements only if it is strictly reverse sorted
+    template <class Func>
+    struct strictly_reverse_sorted
+    {
+        strictly_reverse_sorted(Func f):func_(std::move(f)){}
+        template <class T>
+        bool operator ()(T const& lhs, T const& rhs)const
+        {
+            return !func_(lhs,rhs);
+        }
+        Func func_;
+    };
 }
 
 template <class Iterator, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..3c650fd 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +189,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (std::is_sorted(beg_,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -229,8 +229,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             task_res.set_value();
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<Iterator,boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
@@ -558,7 +558,7 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +761,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -879,8 +879,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             task_res.set_value(std::move(*range));
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<decltype(boost::begin(*range_)),Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<decltype(boost::begin(*range_)),boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,range,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
-- 
2.43.0


From 928922a5d04ff68d255134d7bed18e41921db5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 18/72] fix: scans start a chunk's reduction from its first
 element instead of assuming a default constructed value is the identity

---
 .../algorithm/parallel_exclusive_scan.hpp     | 12 ++++++----
 .../algorithm/parallel_inclusive_scan.hpp     | 24 ++++++++++++-------
 .../parallel_transform_exclusive_scan.hpp     |  6 +++--
 .../parallel_transform_inclusive_scan.hpp     |  6 +++--
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
index 3c4710e..5d3b8ad 100644
--- a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
@@ -25,8 +25,10 @@ parallel_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -59,8 +61,10 @@ parallel_exclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
index a09e4a2..6fa57fc 100644
--- a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
@@ -28,8 +28,10 @@ parallel_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -62,8 +64,10 @@ parallel_inclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -96,8 +100,10 @@ parallel_inclusive_scan(Range&& range,T init,Func f,long cutoff,
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -131,8 +137,10 @@ parallel_inclusive_scan(Range range,T init,Func f,long cutoff,
     auto reduce = [f](decltype(boost::begin(std::declval<typename Range::return_type>())) beg,
                       decltype(boost::begin(std::declval<typename Range::return_type>())) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
index 8c6682c..c606205 100644
--- a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
@@ -26,8 +26,10 @@ parallel_transform_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
index 1d1d3db..7736d16 100644
--- a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
@@ -26,8 +26,10 @@ parallel_transform_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        if (beg == end)
+            return T();
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
-- 
2.43.0


From 52a7f0d8a2b9a4a31e7b40824195f19c05e072b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 19/72] fix: parallel_nth_element keeps looking in the second
 part when the partition boundary is exactly nth

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..ec459ad 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,8 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            // if the boundary is exactly nth, the wanted element is the smallest of the second part
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From b7cf492f3979261d9ffa93f53676b2a4fa123cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 20/72] fix: parallel_partial_sort of nothing terminates and
 does not read an empty range

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..b455baa 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -42,6 +42,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         try
         {
+            // nothing to sort (also if the range is empty)
+            if (beg_ == middle_)
+            {
+                task_res.set_value();
+                return;
+            }
             // if close enough, start sorting
             auto func(std::move(func_));
             auto cutoff = cutoff_;
-- 
2.43.0


From 54c5081470b7343ef2c30033f22736bc4605b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 21/72] fix: if_else, if_then_else and the algorithms called
 with ranges given by continuations report an exception instead of never
 completing

---
 boost/asynchronous/algorithm/if_else.hpp      |  27 ++++-
 boost/asynchronous/algorithm/if_then_else.hpp |  18 ++-
 .../algorithm/parallel_all_of.hpp             |   9 +-
 .../algorithm/parallel_any_of.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_copy.hpp  |  18 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  18 ++-
 .../algorithm/parallel_find_all.hpp           |  18 ++-
 .../algorithm/parallel_find_end.hpp           |   9 +-
 .../algorithm/parallel_find_first_of.hpp      |   9 +-
 boost/asynchronous/algorithm/parallel_for.hpp |   9 +-
 .../asynchronous/algorithm/parallel_move.hpp  |  18 ++-
 .../algorithm/parallel_none_of.hpp            |   9 +-
 .../algorithm/parallel_partition.hpp          | 105 +++++++++--------
 .../algorithm/parallel_reduce.hpp             |  18 ++-
 .../algorithm/parallel_replace_copy.hpp       |  18 ++-
 .../algorithm/parallel_reverse.hpp            |  18 ++-
 .../algorithm/parallel_search.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_sort.hpp  | 108 ++++++++++++++++--
 .../algorithm/parallel_sort_inplace.hpp       |  54 ++++++++-
 .../algorithm/parallel_stable_partition.hpp   |   9 +-
 20 files changed, 419 insertions(+), 91 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..3dfa1db 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -294,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -483,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -468,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 54ce6da..62c3a58 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -205,7 +205,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..6a7b984 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..d65674c 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -293,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..5ad8c41 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -311,62 +311,68 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
+                try
+                {
+                    std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
+                    std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
+                    std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
 
-                std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
-                std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
-                std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
-
-                auto it_left_plus_rtrue = sd->m_left;
-                auto it_left_plus_lmove = sd->m_left;
-                std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
-                std::advance(it_left_plus_lmove,sd->m_lmove.load());
+                    auto it_left_plus_rtrue = sd->m_left;
+                    auto it_left_plus_lmove = sd->m_left;
+                    std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
+                    std::advance(it_left_plus_lmove,sd->m_lmove.load());
 
-                if (sd->m_lmove < sd->m_rtrue)
-                {
-                    for(auto& r : r_rest)
+                    if (sd->m_lmove < sd->m_rtrue)
                     {
-                        if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
-                        if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        for(auto& r : r_rest)
+                        {
+                            if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
+                            if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        }
+                        l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
                     }
-                    l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
-                }
-                if (sd->m_lmove > sd->m_rtrue)
-                {
-                    for(auto& l : l_rest)
+                    if (sd->m_lmove > sd->m_rtrue)
                     {
-                        if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
-                        if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        for(auto& l : l_rest)
+                        {
+                            if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
+                            if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        }
+                        r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
                     }
-                    r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
-                }
 
-                Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
-                while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
-                {
-                    if (rbs == rbe)
-                    {
-                        rbs = r_rest.front().first;
-                        rbe = r_rest.front().second;
-                        r_rest.pop_front();
-                    }
-                    if (lbs == lbe)
+                    Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
+                    while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
                     {
-                        lbs = l_rest.front().first;
-                        lbe = l_rest.front().second;
-                        l_rest.pop_front();
-                    }
+                        if (rbs == rbe)
+                        {
+                            rbs = r_rest.front().first;
+                            rbe = r_rest.front().second;
+                            r_rest.pop_front();
+                        }
+                        if (lbs == lbe)
+                        {
+                            lbs = l_rest.front().first;
+                            lbe = l_rest.front().second;
+                            l_rest.pop_front();
+                        }
 
-                    for(;;)
-                    {
-                        while (lbs < lbe && rel(*(lbs))) ++lbs;
-                        while (rbs < rbe && !rel(*(rbs))) ++rbs;
-                        if (lbs == lbe || rbs == rbe) break;
-                        std::swap(*lbs,*rbs);
+                        for(;;)
+                        {
+                            while (lbs < lbe && rel(*(lbs))) ++lbs;
+                            while (rbs < rbe && !rel(*(rbs))) ++rbs;
+                            if (lbs == lbe || rbs == rbe) break;
+                            std::swap(*lbs,*rbs);
+                        }
                     }
-                }
 
-                task_res.set_value(it_left_plus_rtrue);
-                return;
+                    task_res.set_value(it_left_plus_rtrue);
+                    return;
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
@@ -515,7 +521,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -540,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -206,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 9314f6c..65f647f 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -205,7 +205,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 3c650fd..becae3e 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1075,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1136,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1172,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1219,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1269,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1401,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1408,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1511,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1505,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1552,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1602,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -316,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +377,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -413,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -460,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -510,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From 2230e4978eae3ffccb9d5d23d7184d674236ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 22/72] fix: algorithms report exceptions not derived from
 std::exception instead of never completing

---
 .../asynchronous/algorithm/parallel_adjacent_find.hpp  |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp         |  2 +-
 .../asynchronous/algorithm/parallel_inner_product.hpp  |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp         |  4 ++--
 boost/asynchronous/algorithm/parallel_move.hpp         |  2 +-
 boost/asynchronous/algorithm/parallel_partition.hpp    |  2 +-
 boost/asynchronous/algorithm/parallel_transform.hpp    | 10 +++++-----
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..42b150e 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 3dfa1db..dd33714 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..76da740 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -664,7 +664,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..fadc7e8 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -65,7 +65,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -143,7 +143,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index d65674c..5e99982 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index 5ad8c41..7401145 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch (...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index a6401c5..6c9179f 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From b5adb15d85846ceeee96b1e41cd5d99c6b1a52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 23/72] fix: all_of, any_of, none_of, unique and iota report an
 exception thrown in a posted subtask

---
 .../detail/parallel_all_of_helper.hpp         |  89 ++++++-----
 .../asynchronous/algorithm/parallel_iota.hpp  | 140 ++++++++++--------
 .../algorithm/parallel_unique.hpp             | 107 ++++++-------
 3 files changed, 181 insertions(+), 155 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
index 770763b..003a173 100644
--- a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
@@ -46,57 +46,64 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
     void operator()()const
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            // devide into subarrays and check in each part if we can stop earlier
-            const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
-            bool result = true;
-            for(size_t i = 0; i < subarray_size; ++i)
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                // devide into subarrays and check in each part if we can stop earlier
+                const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
+                bool result = true;
+                for(size_t i = 0; i < subarray_size; ++i)
+                {
+                    if (*stop_event_)
+                    {
+                        break;
+                    }
+                    result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
+                    if (result == Op().cancel_value())
+                    {
+                        *stop_event_ = true;
+                        break;
+                    }
+                }
+                task_res.set_value(result);
+            }
+            else
             {
                 if (*stop_event_)
                 {
-                    break;
+                    task_res.set_value(Op().cancel_value());
                 }
-                result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
-                if (result == Op().cancel_value())
+                else
                 {
-                    *stop_event_ = true;
-                    break;
+                    boost::asynchronous::create_callback_continuation_job<Job>(
+                                // called when subtasks are done, set our result
+                                [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
+                                {
+                                    try
+                                    {
+                                        bool rt = std::get<0>(res).get();
+                                        bool rt2 = std::get<1>(res).get();
+                                        task_res.set_value( Op().merge(rt,rt2));
+                                    }
+                                    catch(...)
+                                    {
+                                        task_res.set_exception(std::current_exception());
+                                    }
+                                },
+                                // recursive tasks
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
+                    );
                 }
             }
-            task_res.set_value(result);
         }
-        else
+        catch(...)
         {
-            if (*stop_event_)
-            {
-                task_res.set_value(Op().cancel_value());
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
-                            {
-                                try
-                                {
-                                    bool rt = std::get<0>(res).get();
-                                    bool rt2 = std::get<1>(res).get();
-                                    task_res.set_value( Op().merge(rt,rt2));
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
-                );
-            }
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index fadc7e8..42d489e 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -41,39 +41,45 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
     void operator()()
     {
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
-        
-        // Advance iterator up to the cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end_)
+        try
         {
-            std::iota(beg_, it, start_);
-            task_res.set_value();
+            // Advance iterator up to the cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end_)
+            {
+                std::iota(beg_, it, start_);
+                task_res.set_value();
+            }
+            else
+            {
+                auto distance = std::distance(beg_, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value();
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg_, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value();
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
@@ -115,43 +121,49 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
     {
         std::shared_ptr<Range> range = std::move(range_);
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
-        
-        // Get iterators
-        auto beg = boost::begin(*range);
-        auto end = boost::end(*range);
-
-        // Advance iterator up to the cutoff
-        auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end)
+        try
         {
-            std::iota(beg, it, start_);
-            task_res.set_value(std::move(*range));
+            // Get iterators
+            auto beg = boost::begin(*range);
+            auto end = boost::end(*range);
+
+            // Advance iterator up to the cutoff
+            auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end)
+            {
+                std::iota(beg, it, start_);
+                task_res.set_value(std::move(*range));
+            }
+            else
+            {
+                auto distance = std::distance(beg, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res, range]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value(std::move(*range));
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res, range]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value(std::move(*range));
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
diff --git a/boost/asynchronous/algorithm/parallel_unique.hpp b/boost/asynchronous/algorithm/parallel_unique.hpp
index d97cd0f..ebd1cd1 100644
--- a/boost/asynchronous/algorithm/parallel_unique.hpp
+++ b/boost/asynchronous/algorithm/parallel_unique.hpp
@@ -51,62 +51,69 @@ struct parallel_unique_helper: public boost::asynchronous::continuation_task<Ite
     void operator()()
     {
         boost::asynchronous::continuation_result<Iterator> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            task_res.set_value(std::unique(beg_,end_,func_));
-        }
-        else
-        {
-            auto func = func_;
-            // remember our current iterators, as they will be needed for moving from within continuation's callback
-            auto end=end_;
-            auto beg=beg_;
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // called when subtasks are done, set our result
-                        [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
-                                              boost::asynchronous::expected<Iterator>> res) mutable
-                        {
-                            try
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                task_res.set_value(std::unique(beg_,end_,func_));
+            }
+            else
+            {
+                auto func = func_;
+                // remember our current iterators, as they will be needed for moving from within continuation's callback
+                auto end=end_;
+                auto beg=beg_;
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // called when subtasks are done, set our result
+                            [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
+                                                  boost::asynchronous::expected<Iterator>> res) mutable
                             {
-                                // new end from each range
-                                Iterator itend1 = std::get<0>(res).get();
-                                Iterator itend2 = std::get<1>(res).get();
-
-                                // last of first range
-                                Iterator last1 = beg;
-                                std::advance(last1,std::distance(beg,itend1)-1);
-                                // remember valid size of total range
-                                auto size = std::distance(beg,itend1) + std::distance(it,itend2);
-                                // it is beginning of 2nd range
-                                if (func(*last1,*it))
+                                try
                                 {
-                                    // handle overlap and move range2's begin+1 to range1's end
-                                    std::move(++it,itend2,itend1);
-                                    --size;
+                                    // new end from each range
+                                    Iterator itend1 = std::get<0>(res).get();
+                                    Iterator itend2 = std::get<1>(res).get();
+
+                                    // last of first range
+                                    Iterator last1 = beg;
+                                    std::advance(last1,std::distance(beg,itend1)-1);
+                                    // remember valid size of total range
+                                    auto size = std::distance(beg,itend1) + std::distance(it,itend2);
+                                    // it is beginning of 2nd range
+                                    if (func(*last1,*it))
+                                    {
+                                        // handle overlap and move range2's begin+1 to range1's end
+                                        std::move(++it,itend2,itend1);
+                                        --size;
+                                    }
+                                    // if there were unique's in range1
+                                    else if (it != itend1)
+                                    {
+                                        // move range2's begin to range1's end
+                                        std::move(it,itend2,itend1);
+                                    }
+                                    // done
+                                    auto newend = beg;
+                                    std::advance(newend,size);
+                                    task_res.set_value(newend);
                                 }
-                                // if there were unique's in range1
-                                else if (it != itend1)
+                                catch(...)
                                 {
-                                    // move range2's begin to range1's end
-                                    std::move(it,itend2,itend1);
+                                    task_res.set_exception(std::current_exception());
                                 }
-                                // done
-                                auto newend = beg;
-                                std::advance(newend,size);
-                                task_res.set_value(newend);
-                            }
-                            catch(...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
-                        parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
-            );
+                            },
+                            // recursive tasks
+                            parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
+                            parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
+                );
+            }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
-- 
2.43.0


From 23f424c8dccc8c1b54cd06afa79bfeb0a203af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 24/72] fix: parallel_merge and parallel_sort do not report an
 exception through a moved-from result

---
 boost/asynchronous/algorithm/parallel_merge.hpp | 4 ++--
 boost/asynchronous/algorithm/parallel_sort.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 2efdcca..e28a914 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -54,7 +54,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper1(std::move(task_res));
+                    helper1(task_res);
                 }
                 else
                 {
@@ -63,7 +63,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper2(std::move(task_res));
+                    helper2(task_res);
                 }
             }
         }
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index becae3e..5ffbfc7 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -336,7 +336,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                 });
                 return;
             }
-            helper(beg_,end_,depth_,merge_memory_,merge_beg_,merge_end_,func_,cutoff_,this->get_name(),prio_,std::move(task_res));
+            helper(beg_,end_,depth_,merge_memory_,merge_beg_,merge_end_,func_,cutoff_,this->get_name(),prio_,task_res);
         }
         catch(...)
         {
-- 
2.43.0


From dcb57a09ddcda145eaf4b4380dbfaf601a74ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 25/72] fix: the future of a void continuation reports the
 exception of its task tree

---
 boost/asynchronous/post.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..ef68858 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,8 @@ namespace detail
                 {
                     try
                     {
+                        // check that no exception
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From f1e12a856cf451ca06d873b0d017f60def5db985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 26/72] fix: copying an expected without value does not
 dereference a null pointer

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..f06d48b 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(!!rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From a542615d819e7ab9c481b702f3dc0f744b366661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 27/72] fix: a job throwing a type not derived from
 std::exception does not terminate the program

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp         | 2 +-
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp      | 2 +-
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp    | 4 ++--
 .../scheduler/multiqueue_threadpool_scheduler.hpp             | 4 ++--
 boost/asynchronous/scheduler/single_thread_scheduler.hpp      | 4 ++--
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp    | 4 ++--
 .../asynchronous/scheduler/stealing_threadpool_scheduler.hpp  | 4 ++--
 boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp     | 2 +-
 boost/asynchronous/scheduler/threadpool_scheduler.hpp         | 4 ++--
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f005741..98e499d 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -475,7 +475,7 @@ private:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 if (popped)
                 {
diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..0c99237 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -395,7 +395,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 504fb9a..dcb0339 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -415,7 +415,7 @@ public:
                 (*queues)[taken_index].m_taken = false;
             }
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -482,7 +482,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..0b4c18f 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -283,7 +283,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -347,7 +347,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..15432cd 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -229,7 +229,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -293,7 +293,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
             }
         }
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 99d1b51..65f38fc 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -302,7 +302,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -367,7 +367,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..bbe279e 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -279,7 +279,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -347,7 +347,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
diff --git a/boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp b/boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp
index 93b64bc..e9b2ca7 100644
--- a/boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp
+++ b/boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp
@@ -341,7 +341,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..16a84bd 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -255,7 +255,7 @@ public:
         {
             // task interrupted, no problem, just continue
         }
-        catch(std::exception&)
+        catch(...)
         {
             if (popped)
             {
@@ -320,7 +320,7 @@ public:
             {
                 // task interrupted, no problem, just continue
             }
-            catch(std::exception&)
+            catch(...)
             {
                 // TODO, user-defined error
             }
-- 
2.43.0


From a4471a819eba88751b625d31470a31bc57a1ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 28/72] fix: a safe callback called in its servant's thread
 treats every exception type alike

---
 boost/asynchronous/trackable_servant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 60f80a5..6068470 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -840,7 +840,7 @@ private:
                         boost::asynchronous::job_traits<JOB>::set_finished_time(job);
                         boost::asynchronous::job_traits<JOB>::add_diagnostic(job,diagnostics.get());
                     }
-                    catch(std::exception&)
+                    catch(...)
                     {
                         boost::asynchronous::job_traits<JOB>::set_failed(job);
                         boost::asynchronous::job_traits<JOB>::set_finished_time(job);
-- 
2.43.0


From aab4d5cd95642977b2558a8708153a9794570280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 29/72] fix: an interruptible job stolen by another type of
 scheduler finds its thread

---
 .../scheduler/detail/interruptible_job.hpp          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index febb5e0..b96645b 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -27,7 +27,16 @@ namespace boost { namespace asynchronous
 
 struct thread_ptr_wrapper
 {
-    thread_ptr_wrapper(boost::thread* t):m_thread(t){}
+    thread_ptr_wrapper(boost::thread* t):m_thread(t){ current() = t; }
+    thread_ptr_wrapper(thread_ptr_wrapper const&)=delete;
+    thread_ptr_wrapper& operator=(thread_ptr_wrapper const&)=delete;
+    ~thread_ptr_wrapper(){ current() = nullptr; }
+    // thread of the calling worker, independent of the type of its scheduler (a job can be stolen by another type of scheduler)
+    static boost::thread*& current()
+    {
+        static thread_local boost::thread* t = nullptr;
+        return t;
+    }
     boost::thread* m_thread;
 };
 
@@ -88,7 +97,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             return;
         }
-        m_worker->set_value(Scheduler::m_self_thread.get()->m_thread);
+        m_worker->set_value(boost::asynchronous::thread_ptr_wrapper::current());
         m_state->run();
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
-- 
2.43.0


From 00c3d9369aa1d629d51ad2c866e807ebf93925b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 30/72] fix: an interrupted job leaves neither its interruption
 nor its state to the next job of the thread

---
 .../scheduler/detail/interruptible_job.hpp    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index b96645b..df246fa 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -112,6 +112,14 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         }
         catch(boost::thread_interrupted&)
         {
+            // an interruption requested after this one must not reach the worker any more
+            if (!m_state->is_interrupted())
+            {
+                m_state->complete();
+            }
+            clear_pending_interruption();
+            // remove state from tss
+            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
         }
         // other exceptions
@@ -120,6 +128,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             // exception but not interrupted
             this->set_interrupted(false);
             m_state->complete();
+            clear_pending_interruption();
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
@@ -127,6 +136,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // ok we were not interrupted
         this->set_interrupted(false);
         m_state->complete();
+        clear_pending_interruption();
         // remove state from tss
         boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
     }
@@ -137,6 +147,17 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // not implemented
         return "";
     }
+    // an interruption requested too late to be noticed by our job must not hit the next job of this thread
+    static void clear_pending_interruption()
+    {
+        try
+        {
+            boost::this_thread::interruption_point();
+        }
+        catch(boost::thread_interrupted&)
+        {
+        }
+    }
 
     std::shared_ptr<std::promise<boost::thread*> >                    m_worker;
     std::shared_ptr<boost::asynchronous::detail::interrupt_state>     m_state;
-- 
2.43.0


From 022a633a3a96412ff2bbd099e64cbcf2efb52ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 31/72] fix: posting an interruptible task to an asio_scheduler
 does not tie the poster's continuations to it

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index 98e499d..d495b58 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -255,8 +255,6 @@ public:
     {
         std::shared_ptr<boost::asynchronous::detail::interrupt_state>
                 state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        // write to tss in case the task requires it
-        boost::asynchronous::get_interrupt_state<>(state,true);
 
         std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
         boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-- 
2.43.0


From 55b38d390aed2938ba6d1fd5b2329f16b2b7d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 32/72] fix: an interruption between the start of a job and its
 execution does not hit the next job of the thread

---
 boost/asynchronous/scheduler/detail/interruptible_job.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index df246fa..da8c3ec 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -102,6 +102,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
         {
+            clear_pending_interruption();
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             return;
-- 
2.43.0


From 27f8e785d98643cf67a0621d7eddb15938a90dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 33/72] fix: a continuation task interrupted while running does
 not stay unfinished for ever

---
 boost/asynchronous/scheduler/detail/interrupt_state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 9c1c326..b2bb775 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -72,7 +72,11 @@ struct interrupt_state
     void complete()
     {
         boost::mutex::scoped_lock lock(m_mutex);
-        m_state = 1;
+        // an interruption requested during execution has to be remembered: continuations of this task check it
+        if (!is_interrupted_int())
+        {
+            m_state = 1;
+        }
     }
     void run()
     {
-- 
2.43.0


From 3fcd63aa30fbb5065b5e53fb54922bbcd9bf651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 34/72] fix: the weak scheduler of a composite pool cannot be
 locked any more when its pools are gone

---
 .../scheduler/composite_threadpool_scheduler.hpp             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 048fe33..e7729a3 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -541,6 +541,11 @@ private:
                     locked_schedulers.emplace_back(std::move(s));
                 }
             }
+            // no subpool left => locking failed, like for any other scheduler
+            if (locked_schedulers.empty())
+            {
+                return any_shared_scheduler<job_type>();
+            }
             std::shared_ptr<lockable_shared_scheduler> s = std::make_shared<lockable_shared_scheduler>(std::move(locked_schedulers));
             any_shared_scheduler_ptr<job_type> pscheduler(std::move(s));
             return any_shared_scheduler<job_type>(std::move(pscheduler));
-- 
2.43.0


From aa8ae1dd093a7a3c1762116c04e4583fe2b7a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 35/72] fix: enabling or disabling a queue of
 any_queue_container does not race with the threads popping from it

---
 boost/asynchronous/queue/any_queue_container.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/queue/any_queue_container.hpp b/boost/asynchronous/queue/any_queue_container.hpp
index a8a3116..f220dcc 100644
--- a/boost/asynchronous/queue/any_queue_container.hpp
+++ b/boost/asynchronous/queue/any_queue_container.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_ASYNC_ANY_QUEUE_CONTAINER_HPP
 #define BOOST_ASYNC_ANY_QUEUE_CONTAINER_HPP
 
+#include <atomic>
 #include <vector>
 #include <cstddef>
 #include <utility>
@@ -57,7 +58,8 @@ class any_queue_container:
                            public boost::asynchronous::queue_base<JOB>,
                            public PushPolicy
 {
-    typedef std::vector<std::pair<boost::asynchronous::any_queue_ptr<JOB>,bool> > queues_type;
+    // enabling / disabling a queue happens concurrently with popping => atomic
+    typedef std::vector<std::pair<boost::asynchronous::any_queue_ptr<JOB>,std::shared_ptr<std::atomic<bool>>> > queues_type;
 public:
     typedef JOB job_type;
     any_queue_container(const any_queue_container&) = delete;
@@ -141,7 +143,7 @@ public:
             {
                 JOB j;
                 // if queue is enabled, try poppping job
-                if((*it).second && (*((*it).first)).try_pop(j))
+                if((*it).second->load() && (*((*it).first)).try_pop(j))
                 {
                     return j;
                 }
@@ -155,7 +157,7 @@ public:
         for (typename queues_type::iterator it = m_queues.begin(); it != m_queues.end();++it)
         {
             // if queue is enabled, try poppping job
-            if((*it).second && (*((*it).first)).try_pop(j))
+            if((*it).second->load() && (*((*it).first)).try_pop(j))
             {
                 return true;
             }
@@ -168,7 +170,7 @@ public:
         for (typename queues_type::iterator it = m_queues.begin(); it != m_queues.end();++it)
         {
             // if queue is enabled, try poppping job
-            if((*it).second && (*((*it).first)).try_steal(j))
+            if((*it).second->load() && (*((*it).first)).try_steal(j))
             {
                 return true;
             }
@@ -177,7 +179,7 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        m_queues.at(queue_prio-1).second = enable;
+        m_queues.at(queue_prio-1).second->store(enable);
     }
 
     template <typename T,typename Last>
@@ -188,7 +190,7 @@ public:
         for (typename Last::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
-            t.push_back(std::make_pair(q,true));// a queue is by default enabled
+            t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
         }
     }
 
@@ -200,7 +202,7 @@ public:
         for (typename Front::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
-            t.push_back(std::make_pair(q,true));// a queue is by default enabled
+            t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
         }
         ctor_helper(t,tail...);
     }
-- 
2.43.0


From 15a3b6749e15e8ee153b1c08645113ca838e8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 36/72] fix: an asio_scheduler whose threads already run can be
 put into a composite

---
 .../extensions/asio/asio_scheduler.hpp        | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index d495b58..f3a8b50 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -13,6 +13,7 @@
 #include <vector>
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <future>
 #include <functional>
 
@@ -66,6 +67,7 @@ public:
         , m_number_of_workers(number_of_workers)
         , m_immediate(immediate)
         , m_name(name)
+        , m_other_queues(std::make_shared<other_queues_holder>())
     {
         set_name(name);
     }
@@ -84,7 +86,7 @@ public:
         // not supported
     }
 
-    void init(size_t number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others,std::weak_ptr<this_type> weak_self)
+    void init(size_t number_of_workers,std::weak_ptr<this_type> weak_self)
     {
         m_works.reserve(number_of_workers);
         m_ioservices.reserve(number_of_workers);
@@ -108,7 +110,7 @@ public:
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             std::shared_ptr<std::promise<void> > p(new std::promise<void>);
             boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,others,weak_self));
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,m_other_queues,weak_self));
             all_threads_started.push_back(p->get_future());
             new_thread_promise.set_value(new_thread);
 
@@ -121,7 +123,7 @@ public:
     {
         m_weak_self = weak_self;
         if (m_immediate)
-            init(m_number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> >(),m_weak_self);
+            init(m_number_of_workers,m_weak_self);
     }
     ~asio_scheduler()
     {
@@ -215,7 +217,10 @@ public:
     void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
     {
         // this scheduler steals if offered
-        init(m_number_of_workers,others,m_weak_self);
+        m_other_queues->set(others);
+        // threads already running (immediate) will look at these queues too
+        if (!m_group)
+            init(m_number_of_workers,m_weak_self);
     }
 
 #ifndef BOOST_NO_RVALUE_REFERENCES    
@@ -379,10 +384,30 @@ public:
     static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
     
 private:
+    // the queues we can steal from. A composite can provide them when our threads are already running
+    struct other_queues_holder
+    {
+        typedef std::vector<boost::asynchronous::any_queue_ptr<job_type> > queues_type;
+        void set(queues_type const& queues)
+        {
+            auto q = std::make_shared<queues_type const>(queues);
+            std::lock_guard<std::mutex> lock(m_mutex);
+            m_queues = std::move(q);
+        }
+        std::shared_ptr<queues_type const> get()const
+        {
+            std::lock_guard<std::mutex> lock(m_mutex);
+            return m_queues;
+        }
+    private:
+        mutable std::mutex m_mutex;
+        std::shared_ptr<queues_type const> m_queues = std::make_shared<queues_type const>();
+    };
+
     static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
                     std::shared_ptr<std::promise<void> > started,
                     std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
-                    std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
+                    std::shared_ptr<other_queues_holder> other_queues,
                     std::weak_ptr<this_type> this_)
     {
         boost::thread* t = self.get();
@@ -424,9 +449,10 @@ private:
                 if (!popped)
                 {                    
                     // ok we have nothing to do, maybe we can steal some work from other pools?
-                    for (std::size_t i=0; i< other_queues.size(); ++i)
+                    auto queues = other_queues->get();
+                    for (std::size_t i=0; i< queues->size(); ++i)
                     {
-                        stolen = (*other_queues[i]).try_steal(job);
+                        stolen = (*(*queues)[i]).try_steal(job);
                         if (stolen)
                             break;
                     }
@@ -495,6 +521,7 @@ private:
     std::weak_ptr<this_type> m_weak_self;
     bool m_immediate;
     const std::string m_name;
+    std::shared_ptr<other_queues_holder> m_other_queues;
 };
 
 template<class FindPosition,class CPULoad>
-- 
2.43.0


From 1d2e829925e8a5d5eeb4a693064e0d3b2a6d7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 37/72] fix: diagnostics of a composite contain the jobs of
 same name of all its pools

---
 .../scheduler/composite_threadpool_scheduler.hpp   | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index e7729a3..8bbdc45 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -172,19 +172,13 @@ public:
     {
         if (pos==0)
         {
-            std::map<std::string,
-                     std::list<typename boost::asynchronous::job_traits<job_type>::diagnostic_item_type > > res;
-
-            std::vector<std::pair<std::string,typename boost::asynchronous::job_traits<Job>::diagnostic_item_type>> res2;
+            boost::asynchronous::scheduler_diagnostics res;
             for (typename std::vector<subpool_type>::const_iterator it = m_subpools.begin(); it != m_subpools.end();++it)
             {
-                auto one_diag = (*it).get_diagnostics().totals();
-                res.insert(one_diag.begin(),one_diag.end());
-
-                auto one_diag2 = (*it).get_diagnostics().current();
-                res2.insert(res2.end(),one_diag2.begin(),one_diag2.end());
+                // several pools can have executed jobs of the same name
+                res.merge((*it).get_diagnostics());
             }
-            return boost::asynchronous::scheduler_diagnostics(res,res2);
+            return res;
         }
         else
         {
-- 
2.43.0


From 50f095b287e857fb780b100163bab44a50912baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 38/72] fix: no read of the moved results of a vector
 continuation while another task delivers them

---
 boost/asynchronous/detail/continuation_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index bbba46c..e7759e9 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -1377,12 +1377,12 @@ struct callback_continuation_as_seq
     struct subtask_finished
     {
         subtask_finished(std::size_t number_of_tasks, bool , bool )
-            :m_futures(number_of_tasks),m_ready_futures(0),m_done()
+            :m_futures(number_of_tasks),m_number_of_tasks(number_of_tasks),m_ready_futures(0),m_done()
         {
         }
         void done()
         {
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
@@ -1391,14 +1391,14 @@ struct callback_continuation_as_seq
         void on_done(Func f)
         {
             m_done = std::move(f);
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
         }
         bool is_ready()
         {
-            return m_ready_futures == m_futures.size()+1;
+            return m_ready_futures == m_number_of_tasks+1;
         }
         void set_interrupted()
         {
@@ -1410,6 +1410,8 @@ struct callback_continuation_as_seq
         }
 
         std::vector<boost::asynchronous::expected<Return> > m_futures;
+        // m_futures is moved away by the last task while others might still be comparing
+        const std::size_t m_number_of_tasks;
         std::atomic<std::size_t> m_ready_futures;
         std::function<void(std::vector<boost::asynchronous::expected<Return> >)> m_done;
     };
-- 
2.43.0


From 549c74f8ee6207752d88dc6cfe247e97babf7d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 39/72] fix: all_of reports a failure once, whatever the number
 of failing tasks

---
 boost/asynchronous/algorithm/all_of.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index a495427..db2ed79 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -38,8 +38,16 @@ struct all_of_task_counter
         : task_count(std::tuple_size<ResultTuple>::value)
     {}
 
+    // only the first failure is reported, a result can be set only once
+    void fail(boost::asynchronous::continuation_result<ResultTuple> const& task_res, std::exception_ptr exception)
+    {
+        if (!has_failed.exchange(true))
+            task_res.set_exception(std::move(exception));
+    }
+
     ResultTuple         values;
     std::atomic<size_t> task_count;
+    std::atomic<bool>   has_failed { false };
 };
 
 template <typename ResultVector>
@@ -50,8 +58,16 @@ struct all_of_vector_task_counter
         , task_count(count)
     {}
 
+    // only the first failure is reported, a result can be set only once
+    void fail(boost::asynchronous::continuation_result<ResultVector> const& task_res, std::exception_ptr exception)
+    {
+        if (!has_failed.exchange(true))
+            task_res.set_exception(std::move(exception));
+    }
+
     ResultVector        values;
     std::atomic<size_t> task_count;
+    std::atomic<bool>   has_failed { false };
 };
 
 template <typename... Continuations>
@@ -120,7 +136,7 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    task_counter->fail(task_res, std::current_exception());
                 }
             }
         );
@@ -148,7 +164,7 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    task_counter->fail(task_res, std::current_exception());
                 }
             }
         );
@@ -200,7 +216,7 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        task_counter->fail(task_res, std::current_exception());
                     }
                 }
             );
@@ -228,7 +244,7 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        task_counter->fail(task_res, std::current_exception());
                     }
                 }
             );
-- 
2.43.0


From 1461faa4916b293f93aaf4475990c54f7a3a3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 40/72] fix: all_of over an empty vector completes

---
 boost/asynchronous/algorithm/all_of.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index db2ed79..a343b38 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -255,6 +255,12 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
     void operator()()
     {
         boost::asynchronous::continuation_result<return_type> task_res = this->this_task_result();
+        if (continuations_.empty())
+        {
+            // nothing to wait for
+            task_res.set_value(return_type());
+            return;
+        }
         auto task_counter = std::make_shared<task_counter_type>(continuations_.size());
 
         dispatch_all<>(task_counter, task_res);
-- 
2.43.0


From 1afc839a16ee2a3e3732415b39521a45d7d5670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 41/72] fix: log a job which ends with an interruption, as
 interrupted, and do not list it as running any more

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp   | 7 +++++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 4 ++++
 .../scheduler/multiqueue_threadpool_scheduler.hpp          | 7 +++++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp   | 7 +++++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp | 7 +++++++
 .../scheduler/stealing_threadpool_scheduler.hpp            | 7 +++++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp      | 7 +++++++
 7 files changed, 46 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 0c99237..d29e719 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -394,6 +394,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(...)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index dcb0339..5d6b98a 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -413,6 +413,10 @@ public:
             if (popped)
             {
                 (*queues)[taken_index].m_taken = false;
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
             }
         }
         catch(...)
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 0b4c18f..6d6afbc 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(...)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 15432cd..b2b6b7b 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(...)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 65f38fc..eccac47 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -301,6 +301,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(...)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index bbe279e..2459396 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -278,6 +278,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(...)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index 16a84bd..0aaaf96 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(...)
         {
-- 
2.43.0


From 79157da16e99439cb5b806be39b2c5dc86918594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 42/72] fix: flag a loggable job as failed in the diagnostics
 when its exception reaches the scheduler

---
 boost/asynchronous/job_traits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9da066f..a0e3deb 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -141,7 +141,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            bool failed = m_callable.get_failed();
+            // either our job threw an exception or it caught one
+            bool failed = Base::get_failed() || m_callable.get_failed();
             return failed;
         }
         Fct m_callable;
@@ -224,7 +225,7 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            return m_callable.get_failed();
+            return Base::get_failed() || m_callable.get_failed();
         }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
-- 
2.43.0


From 533d99249178340126909f7e1f94f7079db4bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 43/72] fix: take over the failure or interruption of a task
 into the diagnostics of its interruptible job

---
 .../scheduler/detail/interruptible_job.hpp             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index da8c3ec..259c2f2 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -134,8 +134,14 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
         }
-        // ok we were not interrupted
-        this->set_interrupted(false);
+        // the job did not let an exception out but it can have caught one: an interruption if one was requested, or a failure
+        bool failed = boost::asynchronous::job_traits<Job>::get_failed(m_job);
+        bool interrupted = failed && m_state->is_interrupted();
+        this->set_interrupted(interrupted);
+        if (failed && !interrupted)
+        {
+            this->set_failed();
+        }
         m_state->complete();
         clear_pending_interruption();
         // remove state from tss
-- 
2.43.0


From a7c22b83a53392edaac2755369dc7cc81afb9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 44/72] fix: minima and maxima of a summary do not take over
 the zeros of stages without results

---
 boost/asynchronous/scheduler_diagnostics.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index bbf9109..8d7d85f 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -122,7 +122,7 @@ struct summary_diagnostic_item
 
     std::string job_name;
 
-    void merge(diagnostics_data<duration_stats> const& ds, diagnostics_data<time_stats> const& ts, diagnostics_data<std::size_t> const& cs, bool is_new)
+    void merge(diagnostics_data<duration_stats> const& ds, diagnostics_data<time_stats> const& ts, diagnostics_data<std::size_t> const& cs)
     {
         // Update counts
         count.scheduling   += cs.scheduling;
@@ -143,9 +143,9 @@ struct summary_diagnostic_item
 
 #undef UPDATE_TOTAL
 
-        // Update min, max and last times
+        // Update min, max and last times (only of the stages for which there are new results; these are the first ones if count was 0)
 
-#define UPDATE_IF(key, minmax, op) if (is_new || ds.key.minmax op durations.key.minmax) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
+#define UPDATE_IF(key, minmax, op) if (cs.key > 0 && (count.key == cs.key || ds.key.minmax op durations.key.minmax)) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
 #define UPDATE_MIN_MAX(key) UPDATE_IF(key, max, >) UPDATE_IF(key, min, <)
 
         UPDATE_MIN_MAX(scheduling)
@@ -159,7 +159,7 @@ struct summary_diagnostic_item
 
         // Update recent times
 
-#define UPDATE_RECENT(key) if (is_new || ts.key.recent > last_times.key.recent) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
+#define UPDATE_RECENT(key) if (cs.key > 0 && (count.key == cs.key || ts.key.recent > last_times.key.recent)) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
 
         UPDATE_RECENT(scheduling)
         UPDATE_RECENT(success)
@@ -281,13 +281,10 @@ struct summary_diagnostics
             summary_diagnostic_item& entry = items[it->first];
 
             // New entries do not have a name yet.
-            bool is_new = entry.job_name.empty();
-
-            // Set name
-            if (is_new) entry.job_name = it->first;
+            if (entry.job_name.empty()) entry.job_name = it->first;
 
             // Merge
-            entry.merge(job_durations, job_last_times, job_count, is_new);
+            entry.merge(job_durations, job_last_times, job_count);
 
             // Update global statistics
 
-- 
2.43.0


From 18bd594b7a25f5a863475c84b01332c9d16cac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 45/72] fix: initialize summary_diagnostics::maxima_present

---
 boost/asynchronous/scheduler_diagnostics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index 8d7d85f..417cfb0 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -190,7 +190,7 @@ struct summary_diagnostics
     using time_stats = diagnostics_stats_unaccumulated<std::chrono::high_resolution_clock::time_point>;
 
     diagnostics_data<duration_stats> maxima; // We do not use .recent here.
-    diagnostics_data<bool> maxima_present;
+    diagnostics_data<bool> maxima_present = {false, false, false, false, false};
 
     bool has_fails = false;
     bool has_interrupts = false;
-- 
2.43.0


From 8322673613901f79505bbf2eea3d9f5d0bd1f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 46/72] fix: recalculate the maxima of a summary over all items
 after merging

---
 boost/asynchronous/scheduler_diagnostics.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index 417cfb0..91612ea 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -286,7 +286,14 @@ struct summary_diagnostics
             // Merge
             entry.merge(job_durations, job_last_times, job_count);
 
-            // Update global statistics
+        }
+
+        // Update global statistics. Averages and minima can decrease, so these are those of all items
+        maxima = diagnostics_data<duration_stats>();
+        maxima_present = {false, false, false, false, false};
+        for (auto const& item : items)
+        {
+            summary_diagnostic_item const& entry = item.second;
 
             has_fails |= (entry.count.failure > 0);
             has_interrupts |= (entry.count.interruption > 0);
-- 
2.43.0


From 61385de965471cca4340b30160d9d20ac8d08224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 47/72] fix: formatters keep the overall diagnostics after
 clear_current

---
 boost/asynchronous/diagnostics/basic_formatter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boost/asynchronous/diagnostics/basic_formatter.hpp b/boost/asynchronous/diagnostics/basic_formatter.hpp
index a4fca06..86068fd 100644
--- a/boost/asynchronous/diagnostics/basic_formatter.hpp
+++ b/boost/asynchronous/diagnostics/basic_formatter.hpp
@@ -115,6 +115,9 @@ public:
 
         for (std::size_t index = 0; index < m_current_diagnostics.size(); ++index) {
             current[index] = m_current_diagnostics[index];
+        }
+        // clear_current() leaves only m_all_diagnostics
+        for (std::size_t index = 0; index < m_all_diagnostics.size(); ++index) {
             all[index] = m_all_diagnostics[index];
         }
         for (std::size_t index = 0; index < current.size(); ++index) {
-- 
2.43.0


From e0bb70b78d5ec7519c132da618c5caad6d18c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 48/72] fix: pass an exception of a function executed in all
 threads to the future of its thread

---
 .../scheduler/detail/execute_in_all_threads.hpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..81fe077 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,15 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 52c5ec9554ddd8c57aac19b0b93761a81058cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 49/72] fix: no division by zero with less workers than threads
 which do not save cpu load

---
 .../asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp  | 2 +-
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp  | 2 +-
 boost/asynchronous/scheduler/threadpool_scheduler.hpp           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 6d6afbc..15e6136 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -104,7 +104,7 @@ public:
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
-            bool save_load_thread = (no_load_save_threads > 0)?(i % load_thread_interval != 0):false;
+            bool save_load_thread = (load_thread_interval > 0)?(i % load_thread_interval != 0):false;
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             boost::thread* new_thread =
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index eccac47..323785a 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -109,7 +109,7 @@ public:
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
-            bool save_load_thread = (no_load_save_threads > 0)?(i % load_thread_interval != 0):false;
+            bool save_load_thread = (load_thread_interval > 0)?(i % load_thread_interval != 0):false;
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             boost::thread* new_thread =
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 2459396..713d84b 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -105,7 +105,7 @@ public:
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
-            bool save_load_thread = (no_load_save_threads > 0)?(i % load_thread_interval != 0):false;
+            bool save_load_thread = (load_thread_interval > 0)?(i % load_thread_interval != 0):false;
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             boost::thread* new_thread =
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index 0aaaf96..e27a9b1 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -94,7 +94,7 @@ public:
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
-            bool save_load_thread = (no_load_save_threads > 0)?(i % load_thread_interval != 0):false;
+            bool save_load_thread = (load_thread_interval > 0)?(i % load_thread_interval != 0):false;
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             boost::thread* new_thread =
-- 
2.43.0


From c2df8c49e090f7f68446ac8321b3322e65922a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 50/72] fix: io pool: a private queue for each possible worker
 if the minimum and the maximum are exchanged

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index d29e719..3a375fa 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -60,8 +60,8 @@ public:
         : boost::asynchronous::detail::single_queue_scheduler_policy<Q>(std::make_shared<queue_type>(std::move(args)...))
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
@@ -73,8 +73,8 @@ public:
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
         , m_name(name)
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
-- 
2.43.0


From 39caf0d666fb2d50b87850c0dbbb412314889460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 51/72] fix: io pool: name also the threads which are always
 present

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 3a375fa..cbe1c38 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -284,8 +284,8 @@ public:
 
     void set_name(std::string const& name)
     {
-        boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-        for (size_t i = 0; i< m_data->m_thread_ids.size();++i)
+        // basic (always present) threads, the others get their name when they start
+        for (size_t i = 0; i< m_data->m_min_number_of_workers;++i)
         {
             boost::asynchronous::detail::set_name_task<typename Q::diagnostic_type> ntask(name);
 #ifndef BOOST_NO_RVALUE_REFERENCES
-- 
2.43.0


From 25ad2e9fde4f4dec47b554b76cdb99f17fb21310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 52/72] fix: io pool: functions executed in all threads do not
 wait for temporary threads, nor end the process if they throw in one

---
 .../scheduler/io_threadpool_scheduler.hpp           | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index cbe1c38..9fa13dc 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -322,10 +322,10 @@ public:
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c)
     {
         std::vector<std::future<void>> res;
-        std::size_t idsize=0;
+        // only the basic threads look at their private queue
+        std::size_t idsize = m_data->m_min_number_of_workers;
         {
             boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
             // remember waiting callable for newly created threads
             m_data->m_execute_in_all_threads.push_back(c);
         }
@@ -515,7 +515,14 @@ public:
         // execute tasks which were given to us and have to be executed in all threads
         for (auto& c : execute_in_all_threads_tasks)
         {
-            c();
+            try
+            {
+                c();
+            }
+            catch(...)
+            {
+                // nobody waits for this one
+            }
         }
         // we run once then end
         do
-- 
2.43.0


From 0fe169ad87456b24b7dc26cee1638084c199b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 53/72] fix: asio_scheduler: names, processor binding and
 functions for all threads reach each thread, not the one which polls first

---
 .../extensions/asio/asio_scheduler.hpp        | 58 +++++++++++++------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f3a8b50..f58b960 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -26,7 +26,8 @@
 #include <boost/asynchronous/scheduler/detail/scheduler_helpers.hpp>
 #include <boost/asynchronous/job_traits.hpp>
 #include <boost/asynchronous/detail/any_joinable.hpp>
-#include <boost/asynchronous/queue/any_queue.hpp>
+#include <boost/asynchronous/queue/any_queue.hpp>
+#include <boost/asynchronous/queue/lockfree_queue.hpp>
 #include <boost/asynchronous/exceptions.hpp>
 #include <boost/asynchronous/job_traits.hpp>
 #include <boost/asynchronous/queue/find_queue_position.hpp>
@@ -69,6 +70,11 @@ public:
         , m_name(name)
         , m_other_queues(std::make_shared<other_queues_holder>())
     {
+        m_private_queues.reserve(number_of_workers);
+        for (size_t i = 0; i< number_of_workers;++i)
+        {
+            m_private_queues.push_back(std::make_shared<private_queue_type>());
+        }
         set_name(name);
     }
     std::vector<std::size_t> get_queue_size() const override
@@ -110,7 +116,7 @@ public:
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             std::shared_ptr<std::promise<void> > p(new std::promise<void>);
             boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,m_other_queues,weak_self));
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],m_private_queues[i],fu,p,other_ioservices,m_other_queues,weak_self));
             all_threads_started.push_back(p->get_future());
             new_thread_promise.set_value(new_thread);
 
@@ -142,15 +148,10 @@ public:
     }
     void set_name(std::string const& name)
     {
-        for (size_t i = 1; i<= m_ioservices.size();++i)
+        for (size_t i = 0; i< m_private_queues.size();++i)
         {
             boost::asynchronous::detail::set_name_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type> ntask(name);
-#ifndef BOOST_NO_RVALUE_REFERENCES
-            job_type job(ntask);
-            this->post(std::move(job),i);
-#else
-            this->post(job_type(ntask),i);
-#endif
+            m_private_queues[i]->push(boost::asynchronous::any_callable(std::move(ntask)),std::numeric_limits<std::size_t>::max());
         }
     }
     std::string get_name()const override
@@ -164,21 +165,19 @@ public:
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p) override
     {
         // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
+        size_t t = 0;
         for(auto const& v : p)
         {
-            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
+            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_private_queues.size()) ;++i)
             {
                 boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
-                job_type job(std::move(task));
-                this->post(std::move(job),t++);
+                boost::asynchronous::any_callable job(std::move(task));
+                m_private_queues[t++]->push(std::move(job),std::numeric_limits<std::size_t>::max());
             }
         }
     }
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c) override
     {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
         std::vector<std::future<void>> res;
         res.reserve(m_number_of_workers);
         for (size_t i = 0; i< m_number_of_workers;++i)
@@ -187,8 +186,7 @@ public:
             auto fu = p.get_future();
             res.emplace_back(std::move(fu));
             boost::asynchronous::detail::execute_in_all_threads_task task(c,std::move(p));
-            job_type job(std::move(task));
-            this->post(std::move(job),t++);
+            m_private_queues[i]->push(std::move(task),std::numeric_limits<std::size_t>::max());
         }
         return res;
     }
@@ -404,7 +402,12 @@ private:
         std::shared_ptr<queues_type const> m_queues = std::make_shared<queues_type const>();
     };
 
-    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
+    // jobs for one particular thread. They cannot go through io_services, which other threads also poll
+    typedef boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> private_queue_type;
+
+    static void run(std::shared_ptr<boost::asio::io_context> ioservice,
+                    std::shared_ptr<private_queue_type> private_queue,
+                    std::shared_future<boost::thread*> self,
                     std::shared_ptr<std::promise<void> > started,
                     std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
                     std::shared_ptr<other_queues_holder> other_queues,
@@ -488,9 +491,27 @@ private:
                 }
                 // remove state from tss
                 boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+                // check for jobs for this thread
+                boost::asynchronous::any_callable djob;
+                if (private_queue->try_pop(djob))
+                {
+                    djob();
+                }
             }
             catch(boost::asynchronous::detail::shutdown_exception&)
             {
+                // execute jobs posted for this thread short before
+                boost::asynchronous::any_callable djob;
+                while (private_queue->try_pop(djob))
+                {
+                    try
+                    {
+                        djob();
+                    }
+                    catch(...)
+                    {
+                    }
+                }
                 // we are done
                 delete m_self_thread.release();
                 return;
@@ -516,6 +537,7 @@ private:
     size_t m_number_of_workers;
     std::vector<boost::asio::executor_work_guard<boost::asio::io_context::executor_type>> m_works;
     std::vector<std::shared_ptr<boost::asio::io_context > > m_ioservices;
+    std::vector<std::shared_ptr<private_queue_type> > m_private_queues;
     std::shared_ptr<boost::thread_group> m_group;
     std::vector<boost::thread::id> m_thread_ids;
     std::weak_ptr<this_type> m_weak_self;
-- 
2.43.0


From 9f93f1286d3d97ad9e770e3016603766b60c7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 54/72] fix: a channel topic starting with a separator, or with
 an empty level, matches itself

---
 boost/asynchronous/notification/topics.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/notification/topics.hpp b/boost/asynchronous/notification/topics.hpp
index f3e711d..a2812cf 100644
--- a/boost/asynchronous/notification/topics.hpp
+++ b/boost/asynchronous/notification/topics.hpp
@@ -120,15 +120,15 @@ namespace boost { namespace asynchronous { namespace subscription
 
             while (!current_view.empty()) 
             {
-                auto input_token = next_token(input_view);
-                auto current_token = next_token(current_view);
-
-                if (input_token.empty()) 
+                if (input_view.empty()) 
                 {
                     // input path is shorter than own
                     return false;
                 }
 
+                auto input_token = next_token(input_view);
+                auto current_token = next_token(current_view);
+
                 if (!((current_token.starts_with(Wildcard) && current_token.size() == 1) || current_token == input_token))
                 {
                     return false;
-- 
2.43.0


From e9cc9d6f11484a8d8e319799b4cd5e88995af6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 55/72] fix: an event matching several topics of a scheduler is
 delivered once to its subscribers

---
 boost/asynchronous/notification/local_subscription.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 7c628d6..4d87035 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -10,6 +10,9 @@
 #ifndef BOOST_ASYNCHRONOUS_NOTIFICATION_LOCAL_SUBSCRIPTION_HPP
 #define BOOST_ASYNCHRONOUS_NOTIFICATION_LOCAL_SUBSCRIPTION_HPP
 
+#include <algorithm>
+#include <map>
+#include <tuple>
 #include <vector>
 #include <functional>
 #include <optional>
@@ -163,10 +166,14 @@ struct local_subscription
         // inform first other schedulers
         // to avoid event order inversion in case processing an event would send another event
         // external schedulers execute publishing asynchronously and therefore are not counted as handling the event
+        // a scheduler subscribed to several matching topics is informed only once, it will itself inform all its subscribers
+        std::vector<boost::uuids::uuid> informed;
         for (auto& sched_sub : m_scheduler_subscribers)
         {
-            if (std::get<Topic>(sched_sub).matches(other_topic))
+            if (std::get<Topic>(sched_sub).matches(other_topic)
+                && std::find(informed.begin(), informed.end(), std::get<boost::uuids::uuid>(sched_sub)) == informed.end())
             {
+                informed.push_back(std::get<boost::uuids::uuid>(sched_sub));
                 std::get<subscriber_t>(sched_sub)(e, other_topic);
             }
         }
-- 
2.43.0


From e4148471800aae923fb2b20d8bc8fd7a72056c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 56/72] fix: subscribing again from another scheduler is not
 undone by a pending unsubscription

---
 .../asynchronous/notification/local_subscription.hpp  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 4d87035..036004f 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -75,6 +75,17 @@ struct local_subscription
     template <class Sub>
     void subscribe_scheduler(Sub&& sub, boost::uuids::uuid scheduler_id, Topic const& topic)
     {
+        // this subscription supersedes an unsubscription still waiting for cleanup
+        m_deleted_scheduler_subscribers.erase(
+            std::remove_if(m_deleted_scheduler_subscribers.begin(), m_deleted_scheduler_subscribers.end(),
+                [&](auto const& deleted)
+                {
+                    return (std::get<boost::uuids::uuid>(deleted) == scheduler_id)
+                        && std::get<std::optional<Topic>>(deleted)
+                        && (std::get<std::optional<Topic>>(deleted).value() == topic);
+                }),
+            m_deleted_scheduler_subscribers.end());
+
         // do not register double entries
         auto it = std::find_if(m_scheduler_subscribers.begin(), m_scheduler_subscribers.end(),
             [&](const auto& s)
-- 
2.43.0


From 03258b35d61d8f8d7ee4c1f50ad0862b795838ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 57/72] fix: the death of the last servant to subscribe does
 not stop events to the others of its scheduler

---
 boost/asynchronous/trackable_servant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 6068470..2691b26 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -602,7 +602,7 @@ public:
 
             // publishing to other schedulers will mean calling this function, 
             // which will post_future to our scheduler
-            auto wrapped = [tracking, uid, weak, task_name, prio]
+            auto wrapped = [uid, weak, task_name, prio]
             (Event const& ev, Topic const& published_topic)
                 {
                     auto sched = weak.lock();
@@ -610,14 +610,15 @@ public:
                     {
                         // not in our thread, post
                         boost::asynchronous::post_future(sched,
-                            boost::asynchronous::move_bind(boost::asynchronous::check_alive([weak](Event const& ev, Topic const& published_topic)
+                            // other servants of our scheduler might have subscribed to this topic: every subscriber checks its own servant
+                            boost::asynchronous::move_bind([weak](Event const& ev, Topic const& published_topic)
                                 {
                                     auto sched = weak.lock();
                                     if (sched.is_valid())
                                     {
                                         sched.publish_internal(ev, published_topic);
                                     }
-                                }, tracking), ev, published_topic),
+                                }, ev, published_topic),
                             task_name, prio);
                     }
                     else
-- 
2.43.0


From 218bd38f2db4083bf192c516579d9c5c26f39962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 58/72] fix: an interruption reaches subtasks which are being
 posted meanwhile

---
 boost/asynchronous/scheduler/detail/interrupt_state.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index b2bb775..3c353b9 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -91,6 +91,15 @@ struct interrupt_state
     {
         boost::mutex::scoped_lock lock(m_interruptibles_mutex);
         m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        lock.unlock();
+        // an interruption requested while these subtasks were being posted could not reach them
+        if (is_interrupted())
+        {
+            for (; beg != end; ++beg)
+            {
+                (*beg).interrupt();
+            }
+        }
     }
     void add_sub(boost::asynchronous::any_interruptible const& i)
     {
-- 
2.43.0


From 9f65ef37274c589d6b283bd364bcf2f1c38ae9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 59/72] fix: containers built from the same
 any_queue_container_config do not share their queues

---
 .../queue/any_queue_container.hpp             | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/boost/asynchronous/queue/any_queue_container.hpp b/boost/asynchronous/queue/any_queue_container.hpp
index f220dcc..fcca8c3 100644
--- a/boost/asynchronous/queue/any_queue_container.hpp
+++ b/boost/asynchronous/queue/any_queue_container.hpp
@@ -13,6 +13,7 @@
 #include <atomic>
 #include <vector>
 #include <cstddef>
+#include <functional>
 #include <utility>
 #include <numeric>
 
@@ -31,21 +32,26 @@ struct any_queue_container_config
     typedef Queue queue_type;
     typedef std::vector<std::shared_ptr<Queue> > queue_sequence;
     template <typename... Args>
-    any_queue_container_config(std::size_t number,Args... args):m_number(number)
+    any_queue_container_config(std::size_t number,Args... args)
+        : m_create([number,args...]()
+          {
+            queue_sequence res;
+            for (std::size_t i = 0; i< number; ++i)
+            {
+                res.push_back(std::make_shared<Queue>(args...));
+            }
+            return res;
+          })
     {
-        for (std::size_t i = 0; i< number; ++i)
-        {
-            m_queues.push_back(std::make_shared<Queue>(std::move(args)...));
-        }
     }
-    std::pair<typename queue_sequence::const_iterator,typename queue_sequence::const_iterator> queues()const
+    // a scheduler can build several containers with the same config => each gets its own queues
+    queue_sequence queues()const
     {
-        return std::make_pair(m_queues.begin(),m_queues.end());
+        return m_create();
     }
 
 private:
-    std::size_t m_number;
-    queue_sequence m_queues;
+    std::function<queue_sequence()> m_create;
 };
 
 // this class manages a sequence of (possibly different) queues
@@ -185,9 +191,8 @@ public:
     template <typename T,typename Last>
     void ctor_helper(T& t, Last const& l)
     {
-        std::pair<typename Last::queue_sequence::const_iterator,
-                typename Last::queue_sequence::const_iterator> p = l.queues();
-        for (typename Last::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
+        typename Last::queue_sequence queues = l.queues();
+        for (typename Last::queue_sequence::const_iterator it = queues.begin(); it != queues.end(); ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
             t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
@@ -197,9 +202,8 @@ public:
     template <typename T,typename... Tail, typename Front>
     void ctor_helper(T& t,Front const& front,Tail const&... tail)
     {
-        std::pair<typename Front::queue_sequence::const_iterator,
-                  typename Front::queue_sequence::const_iterator> p = front.queues();
-        for (typename Front::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
+        typename Front::queue_sequence queues = front.queues();
+        for (typename Front::queue_sequence::const_iterator it = queues.begin(); it != queues.end(); ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
             t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
-- 
2.43.0


From 346d57c3fe65d115c1278212be8b337e578b768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 60/72] fix: a throwing default constructor in
 parallel_placement ends the construction once, with all elements destroyed

---
 .../algorithm/parallel_placement.hpp          | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 00bd484..07e7aef 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -131,6 +131,7 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -156,14 +157,14 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, nothing is left to clean up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -255,6 +256,7 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                             ((T*)(data_)+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -280,14 +282,14 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, nothing is left to clean up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -381,6 +383,7 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -408,14 +411,14 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, nothing is left to clean up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-- 
2.43.0


From f06f848f163c346f4ee3293ef37cea725fa785f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 61/72] fix: an exception thrown while constructing or moving
 elements of an asynchronous vector is forwarded and leaves no element behind

---
 .../algorithm/parallel_placement.hpp          |  7 ++-
 boost/asynchronous/container/vector.hpp       | 52 +++++++++++++++----
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 07e7aef..e6258ee 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -49,6 +49,7 @@ void serial_placement(Iterator beg, Iterator end,char* data)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -68,6 +69,7 @@ void serial_placement(Iterator beg, Iterator end,char* data,T init)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -87,6 +89,7 @@ void serial_placement_it(Iterator beg, Iterator end,char* data,Iterator2 it2)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -293,7 +296,7 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data)+(j+beg))->~T();
+                                            ((T*)(data)+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
@@ -422,7 +425,7 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data.get())+(j+beg))->~T();
+                                            ((T*)(data.get())+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 52f6a87..fdce066 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -119,7 +119,7 @@ public:
     }
 
 
-    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )noexcept
+    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )
         : m_size(n)
         , m_capacity(n)
         , m_allocator(alloc)
@@ -130,7 +130,7 @@ public:
     }
 
     template< class InputIt >
-    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())noexcept
+    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())
         : m_cutoff(1000)
         , m_task_name("")
         , m_prio(0)
@@ -144,7 +144,7 @@ public:
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
     }
 
-    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )noexcept
+    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )
      : m_cutoff(1000)
      , m_task_name("")
      , m_prio(0)
@@ -200,7 +200,7 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            check_placement(fu.get());
         }
         else
         {
@@ -254,7 +254,7 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            check_placement(fu.get());
         }
         else
         {
@@ -290,7 +290,7 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            check_placement(fu.get());
         }
         else
         {
@@ -336,14 +336,15 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            check_placement(fu.get());
         }
         else
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),T());
         }
 
-        // copy
+        // copy, if this fails the elements have to be destroyed, as our destructor will not be called
+        placement_guard guard(*m_data);
         auto beg_it = begin();
         auto other_end_it = other.end();
         auto other_beg_it = other.begin();
@@ -363,6 +364,7 @@ public:
         {
             std::copy(other_beg_it,other_end_it,beg_it);
         }
+        guard.release();
     }
     vector( boost::asynchronous::any_shared_scheduler_proxy<Job> scheduler,long cutoff,
             std::initializer_list<T> init,
@@ -393,7 +395,7 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            check_placement(fu.get());
         }
         else
         {
@@ -1914,6 +1916,35 @@ public:
     }
 
 private:
+    // forward an exception thrown by a constructor of an element (no element is left alive in this case)
+    static void check_placement(boost::asynchronous::detail::parallel_placement_helper_result const& res)
+    {
+        if (res.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+        {
+            std::rethrow_exception(res.second);
+        }
+    }
+
+    // destroys the elements unless released
+    struct placement_guard
+    {
+        explicit placement_guard(typename internal_data_type::element_type& data):m_data(&data){}
+        placement_guard(placement_guard const&)=delete;
+        placement_guard& operator=(placement_guard const&)=delete;
+        ~placement_guard()
+        {
+            if (m_data)
+            {
+                boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,m_data->size_,(char*)m_data->data());
+                m_data->size_=0;
+            }
+        }
+        void release()
+        {
+            m_data = nullptr;
+        }
+        typename internal_data_type::element_type* m_data;
+    };
 
     std::size_t reallocate_helper(size_type new_memory)
     {
@@ -1950,6 +1981,8 @@ private:
         auto beg_it = begin();
         auto end_it = end();
 
+        // if moving fails, our elements stay and the new memory has to be cleaned up
+        placement_guard guard(*new_data);
         // move our data to new memory
         if (m_scheduler.is_valid())
         {
@@ -1979,6 +2012,7 @@ private:
         {
             boost::asynchronous::serial_move_if_noexcept(beg_it,end_it,(iterator)(new_data->data()));
         }
+        guard.release();
         // destroy our old data (wait until done)
         if (m_scheduler.is_valid() && !!m_data)
         {
-- 
2.43.0


From 3d18f94184e5d01d519a7340eae8dd4ea100e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 62/72] fix: a failed asynchronous reallocation of a vector
 destroys the elements of the new memory

---
 boost/asynchronous/container/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index fdce066..9a587aa 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -2098,6 +2098,10 @@ private:
                         try
                         {
                             // check for exceptions
+                            if (std::get<0>(mres).has_exception())
+                            {
+                                boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,size,(char*)new_data->data());
+                            }
                             std::get<0>(mres).get();
                             // delete old data
                             auto cont_d = boost::asynchronous::top_level_callback_continuation_job<void,Job>(
-- 
2.43.0


From f87c2392f25ca217fe05d64cd89438aa510e16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 63/72] fix: the memory of an asynchronous vector is released
 with its allocator, not with the one of a vector moved away

---
 boost/asynchronous/container/vector.hpp | 38 ++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 9a587aa..bed485a 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -107,8 +107,9 @@ public:
     , m_capacity(default_capacity)
     , m_allocator(alloc)
     {
+        Alloc dealloc = m_allocator;
         std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+                                  [dealloc](T* p)mutable{dealloc.deallocate(p,default_capacity);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
     }
@@ -124,7 +125,8 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),value);
     }
@@ -139,7 +141,8 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -154,7 +157,8 @@ public:
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,decltype(first)>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -189,7 +193,8 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -221,8 +226,9 @@ public:
         , m_capacity(default_capacity)
         , m_allocator(alloc)
     {
+        Alloc dealloc = m_allocator;
         std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+                                  [dealloc](T* p)mutable{dealloc.deallocate(p,default_capacity);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
     }
@@ -242,7 +248,8 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -278,7 +285,8 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -321,7 +329,8 @@ public:
         auto n = other.size();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         auto cutoff = m_cutoff;
         auto task_name = m_task_name;
         auto prio = m_prio;
@@ -373,17 +382,19 @@ public:
 #else
             const std::string& task_name="", std::size_t prio=0
 #endif
-           ,const Alloc& = Alloc() )
+           ,const Alloc& alloc = Alloc() )
      : m_scheduler(scheduler)
      , m_cutoff(cutoff)
      , m_task_name(task_name)
      , m_prio(prio)
+     , m_allocator(alloc)
     {
         auto n = std::distance(init.begin(),init.end());
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        Alloc dealloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -1948,7 +1959,8 @@ private:
 
     std::size_t reallocate_helper(size_type new_memory)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory](T* p){this->m_allocator.deallocate(p,new_memory);});
+        auto alloc = m_allocator;
+        std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[alloc,new_memory](T* p)mutable{alloc.deallocate(p,new_memory);});
 
         // create our current number of objects with placement new
         auto n = m_size;
@@ -2062,7 +2074,7 @@ private:
                 auto prio = m_prio;
                 auto beg = m_begin; auto end =m_end;
 
-                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
+                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
 
                 auto cont_p = boost::asynchronous::parallel_placement<T,Job>
                         (0,m_size,(char*)raw.get(),T(),m_cutoff,this->get_name()+"vector_reallocate_placement",m_prio);
-- 
2.43.0


From 3dcea031b7ce53937e87177de894d6a79f71e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 64/72] fix: vector(n,value) initializes cutoff and priority

---
 boost/asynchronous/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index bed485a..b01979f 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -121,7 +121,10 @@ public:
 
 
     vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )
-        : m_size(n)
+        : m_cutoff(1000)
+        , m_task_name("")
+        , m_prio(0)
+        , m_size(n)
         , m_capacity(n)
         , m_allocator(alloc)
     {
-- 
2.43.0


From 52666b89409aa9603e0b596a02339e2903735802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 65/72] fix: vector::pop_back destroys the last element, not
 the first

---
 boost/asynchronous/container/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index b01979f..4e5a021 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -805,7 +805,7 @@ public:
     }
     void pop_back()
     {
-        ((T*)(begin()))->~T();
+        ((T*)(end()-1))->~T();
         --m_size;
         --m_data->size_;
     }
-- 
2.43.0


From 2a6fe4ad5675e15e0ca809c0c10466c6d328ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 66/72] fix: a cleared or moved-from asynchronous vector can be
 filled again

---
 boost/asynchronous/container/vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 4e5a021..f53fef1 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -320,6 +320,7 @@ public:
     {
         other.m_data.reset();
         other.m_size = 0;
+        other.m_capacity = 0;
     }
     vector( vector const& other )
         : m_scheduler(other.m_scheduler)
@@ -685,11 +686,11 @@ public:
     }
     pointer data()
     {
-        return (pointer) (m_data->data());
+        return begin();
     }
     const_pointer data() const
     {
-        return (const_pointer) (m_data->data());
+        return begin();
     }
 
     size_type capacity() const
@@ -742,6 +743,8 @@ public:
             }
             catch(std::exception&)
             {}
+            // our memory has been released
+            m_capacity=0;
         }
         else if(!!m_data)
         {
@@ -1685,6 +1688,11 @@ public:
 
     iterator insert( const_iterator orgpos, size_type count, const T& value )
     {
+        if (count == 0)
+        {
+            // nothing to do
+            return (iterator)orgpos;
+        }
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+count > capacity())
-- 
2.43.0


From dc34898e3ae3c13583af11d605e6368d89ab53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 67/72] fix: vector::erase returns the position following the
 erased elements

---
 boost/asynchronous/container/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index f53fef1..4f10f8f 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -943,7 +943,7 @@ public:
             }
             // set to new size
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
         else
         {
@@ -1058,7 +1058,7 @@ public:
             }
             // remove our excess elements
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
     }
     iterator erase( const_iterator pos)
-- 
2.43.0


From 6acd01ab740f6a309b24bb64f137676fbfffe528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 68/72] fix: rbegin, rend and crend of an asynchronous vector
 compile

---
 boost/asynchronous/container/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 4f10f8f..cc53dc3 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -615,7 +615,7 @@ public:
     {
         if (!!m_data)
             return const_reverse_iterator(end());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crbegin() const
     {
@@ -627,19 +627,19 @@ public:
     {
         if (!!m_data)
             return reverse_iterator(begin());
-        return nullptr;
+        return reverse_iterator(nullptr);
     }
     const_reverse_iterator rend() const
     {
         if (!!m_data)
             return const_reverse_iterator(begin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crend() const
     {
         if (!!m_data)
             return const_reverse_iterator(cbegin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
 
     reference operator[] (size_type n)
-- 
2.43.0


From c85a41313d940120ef0c7068d29046dd092ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 69/72] fix: the capacity of an asynchronous vector is updated
 when insert or emplace reallocate

---
 boost/asynchronous/container/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index cc53dc3..c013d4d 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -2059,6 +2059,7 @@ private:
             m_data->size_=0;
         }
         std::swap(m_data,new_data);
+        m_capacity = new_memory;
 
         return new_memory;
     }
-- 
2.43.0


From 45e32253a00a5bb0940ab8db39056c0cb108f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 70/72] fix: elements of an asynchronous vector can be inserted
 into itself, emplace takes any number of arguments

---
 boost/asynchronous/container/vector.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index c013d4d..a707bef 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -764,11 +764,13 @@ public:
         }
         else
         {
+            // value could be one of our elements
+            T copy(value);
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(value);
+            push_back(std::move(copy));
         }
     }
     void push_back( T&& value )
@@ -793,17 +795,19 @@ public:
     {
         if (m_size + 1 <= m_capacity )
         {
-            new (end()) T(std::forward<Args...>(args...));
+            new (end()) T(std::forward<Args>(args)...);
             ++m_size;
             ++m_data->size_;
         }
         else
         {
+            // args could refer to our elements
+            T value(std::forward<Args>(args)...);
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<Args...>(args...));
+            push_back(std::move(value));
         }
     }
     void pop_back()
@@ -1068,6 +1072,8 @@ public:
     template< class... Args >
     iterator emplace( const_iterator orgpos,  Args&&... args)
     {
+        // args could refer to our elements
+        T new_value(std::forward<Args>(args)...);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1140,9 +1146,8 @@ public:
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
 
-        // add input using placement new
-        ((T*) pos)->~T();
-        new ((T*) pos) T(std::forward<Args...>(args...));
+        // add input
+        *pos = std::move(new_value);
 
         // move back from temporary
         auto temp_end = temp_begin + n;
@@ -1381,6 +1386,8 @@ public:
     }
     iterator insert( const_iterator orgpos, const T& value )
     {
+        // value could be one of our elements
+        T new_value(value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1454,7 +1461,7 @@ public:
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
 
         // copy input
-        *pos = value;
+        *pos = std::move(new_value);
         // move back from temporary
         auto temp_end = temp_begin + n;
         auto beg_move_back = pos + 1;
@@ -1693,6 +1700,8 @@ public:
             // nothing to do
             return (iterator)orgpos;
         }
+        // value could be one of our elements
+        std::vector<T> a(count,value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+count > capacity())
@@ -1783,7 +1792,6 @@ public:
         }
 
         // copy input
-        std::vector<T> a(count,value);
         if (m_scheduler.is_valid())
         {
             auto fu4 = boost::asynchronous::post_future(m_scheduler,
-- 
2.43.0


From dce9fddd7a59989402c5e6e6709630354021c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 71/72] fix: async_resize within the capacity completes

---
 boost/asynchronous/container/algorithms.hpp | 28 +++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4e3f5bb..ae38dba 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -194,6 +194,34 @@ struct resize_task: public boost::asynchronous::continuation_task<Container>
                         }
                     });
                 }
+                else
+                {
+                    // construct the new elements in our memory
+                    auto data = c->get_internal_data();
+                    auto s = m_value;
+                    auto cont = boost::asynchronous::parallel_placement<value_type,Job>
+                            (c->size(),s,(char*)data->data(),value_type(),c->get_cutoff(),c->get_name()+"_vector_resize_placement",c->get_prio());
+                    cont.on_done([task_res,c,data,s]
+                                   (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& res)mutable
+                    {
+                        try
+                        {
+                            auto placement_result = std::get<0>(res).get();
+                            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                            {
+                                task_res.set_exception(placement_result.second);
+                                return;
+                            }
+                            data->size_ = s;
+                            c->set_internal_data(data,c->capacity());
+                            task_res.set_value(std::move(*c));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
+                    });
+                }
             }
             else
             {
-- 
2.43.0


From 446e941d6f50201856f5e55f5917b148525b20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 72/72] fix: async_merge_containers writes the merged elements
 behind the first ones, not past the end

---
 boost/asynchronous/container/algorithms.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index ae38dba..8e9c2dc 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -705,7 +705,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
             auto name = this->get_name();
 
             auto cont = boost::asynchronous::async_resize(std::move(m_container1),s1+s2);
-            cont.on_done([task_res,name,c2]
+            cont.on_done([task_res,name,s1,c2]
                            (std::tuple<boost::asynchronous::expected<Container> >&& res)mutable
             {
                 try
@@ -713,7 +713,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
                     std::shared_ptr<Container> c1 = std::make_shared<Container>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::iterator;
                     auto cont_move = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                                (c2->begin(),c2->end(),c1->end(),c2->get_cutoff(),
+                                                (c2->begin(),c2->end(),c1->begin()+s1,c2->get_cutoff(),
                                                  name+"_parallel_move_if_noexcept",c2->get_prio());
                     cont_move.on_done([task_res,c1,c2]
                                    (std::tuple<boost::asynchronous::expected<void> >&& res_move)mutable
@@ -786,10 +786,11 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                 s += c.size();
             }
             auto name = this->get_name();
+            auto s1 = m_container[0].size();
             auto cont = boost::asynchronous::async_resize(std::move(m_container[0]),s);
             std::shared_ptr<Container> c = std::make_shared<Container>(std::move(m_container));
 
-            cont.on_done([task_res,name,c]
+            cont.on_done([task_res,name,s1,c]
                            (std::tuple<boost::asynchronous::expected<typename Container::value_type> >&& res)mutable
             {
                 try
@@ -798,11 +799,13 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                             std::make_shared<typename Container::value_type>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::value_type::iterator;
                     std::vector<boost::asynchronous::detail::callback_continuation<void>> subs;
+                    auto dest = c1->begin()+s1;
                     for (auto it = c->begin()+1; it != c->end();++it)
                     {
                         subs.push_back(boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                       ((*it).begin(),(*it).end(),c1->end(),c1->get_cutoff(),
+                                       ((*it).begin(),(*it).end(),dest,c1->get_cutoff(),
                                         name+"_parallel_move_if_noexcept",c1->get_prio()));
+                        dest += (*it).size();
                     }
                     boost::asynchronous::create_callback_continuation(
                          [task_res,c,c1]
-- 
2.43.0

