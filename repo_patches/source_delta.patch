From c1f7fcbbc3a964ea1bf580491d46314707312cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 01/39] fix: reserve the slot of a new pool thread before it
 starts

The thread was counted only after it had been created, so concurrent
submitters could exceed the maximum and the consistency assertion in
schedule() terminated the process when a new thread went idle before
it was counted.
---
 src/naive/naive_threadpool.cpp | 61 +++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..abc0aea 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -306,34 +306,41 @@ backend::global_threadpool()
 void
 threadpool::schedule()
 {
-    // lets check if there is an idle thread first
-    const int active_threads =
+    int active_threads =
       m_data->m_active_threads.load(std::memory_order_consume);
-    const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
-    XDISPATCH_ASSERT(idle_threads >= 0);
-    XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
-
-    if (idle_threads > 0) {
-        // idle count will be decremented by thread waking up again
-        XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
-          << "Woke an idle thread";
-    }
-    // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
-        operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
-
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
-          << "Spawned thread " << thread->get_id()
-          << " (max=" << m_data->m_max_threads << ")";
-    }
-    // all threads busy and processor allocation reached, wait
-    // and the operation will be picked up as soon as a thread is available
+    do {
+        // lets check if there is an idle thread first
+        const int idle_threads =
+          m_data->m_idle_threads.load(std::memory_order_consume);
+        XDISPATCH_ASSERT(idle_threads >= 0);
+        XDISPATCH_ASSERT(active_threads >= 0);
+
+        if (idle_threads > 0) {
+            // idle count will be decremented by thread waking up again
+            XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
+              << "Woke an idle thread";
+            return;
+        }
+        // check if we are good to create another thread
+        if (active_threads >=
+            m_data->m_max_threads.load(std::memory_order_consume)) {
+            // all threads busy and processor allocation reached, wait
+            // and the operation will be picked up as soon as a thread is
+            // available
+            return;
+        }
+        // reserve the slot before the thread starts, it may be idle or even
+        // expire before we get to run again and others may be about to create
+        // a thread as well
+    } while (!m_data->m_active_threads.compare_exchange_strong(
+      active_threads, active_threads + 1, std::memory_order_acq_rel));
+
+    auto thread = std::make_shared<worker>(m_data);
+    operation_queue_manager::instance().attach(thread);
+
+    XDISPATCH_TP_TRACE(this, active_threads + 1, 0)
+      << "Spawned thread " << thread->get_id()
+      << " (max=" << m_data->m_max_threads << ")";
 }
 
 void
-- 
2.43.0


From df35603a852d1606692b98320baabb99d171a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 02/39] fix: do not fail spuriously when completing or waiting
 on a barrier

compare_exchange_weak may fail although the barrier has no owner. In that
case complete() lost the completion and wait() dereferenced a null pointer.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From 340d4f2c901b721329f41ad96061a8396a640eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 03/39] fix: treat very long barrier timeouts as unlimited

The deadline of e.g. milliseconds::max() overflowed so that wait() returned
false at once.
---
 src/lightweight_barrier.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..f029e3e 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -52,7 +52,10 @@ public:
 
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
-            if (std::chrono::milliseconds(-1) != timeout) {
+            // anything longer overflows the clock when computing the deadline
+            static constexpr auto kMaxTimeout = std::chrono::hours(24 * 3650);
+            if (std::chrono::milliseconds(-1) != timeout &&
+                timeout < kMaxTimeout) {
                 return m_cond.wait_for(lock, timeout, predicate);
             }
             m_cond.wait(lock, predicate);
-- 
2.43.0


From 147af2a4bf803ccccd63ea3b83249937a59fceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 04/39] fix: leave the timer and notifier handler scope before
 waking the worker

---
 src/naive/naive_socket_notifier.cpp | 12 ++++++++----
 src/naive/naive_timer.cpp           | 10 +++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..64584d7 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -163,10 +163,14 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                          {
+                              // needs to end before completing the barrier, the
+                              // notifier may be gone once that one completed
+                              cancelable_scope scope(handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
                           barrier.complete();
                       }));
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..aef841f 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -104,9 +104,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        // needs to end before completing the barrier, the
+                        // timer may be gone as soon as that one completed
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
                     barrier.complete();
                 }));
-- 
2.43.0


From 2810e6f2d76e3f7ff27006fa544f95a40bf08dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 05/39] fix: keep group::wait from returning before later
 batches are done

---
 src/naive/naive_consumable.cpp | 12 ++++++++++++
 src/naive/naive_consumable.h   |  8 ++++++++
 src/naive/naive_group.cpp      | 17 ++++++++++++-----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..80e459a 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -37,6 +37,18 @@ consumable::add_resource()
     m_resources.fetch_add(size_t(1));
 }
 
+bool
+consumable::try_add_resource()
+{
+    auto current = m_resources.load();
+    while (current > 0) {
+        if (m_resources.compare_exchange_weak(current, current + 1)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 void
 consumable::consume_resource()
 {
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..3d69cb0 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -64,6 +64,14 @@ public:
      */
     void add_resource();
 
+    /**
+        @brief Adds an additional free resource to the consumable
+               unless it had already been fully consumed
+
+        @return true if the resource was added
+     */
+    bool try_add_resource();
+
     /**
         @brief Consumes a resource removing it from the list of
                available resources
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..00d1f8e 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -39,16 +39,21 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(std::make_shared<consumable>(1))
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        // the current consumable holds one resource on behalf of the group so
+        // that it cannot complete before somebody waits for it. If adding fails
+        // a wait has swapped it in the meantime and there is a new one
+        consumable_ptr c;
+        do {
+            c = std::atomic_load(&m_consumable);
+            XDISPATCH_ASSERT(c);
+        } while (!c->try_add_resource());
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
@@ -62,11 +67,13 @@ public:
         consumable_ptr new_c;
         do {
             old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
+            new_c = std::make_shared<consumable>(1, old_c);
         } while (
           !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
         XDISPATCH_ASSERT(old_c);
         XDISPATCH_ASSERT(new_c);
+        // no more operations get added, release the resource of the group
+        old_c->consume_resource();
         return old_c->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
-- 
2.43.0


From fe4cddc8ac39c49b51c747d139c32720de0c5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 06/39] fix: do not keep every finished wait of a group alive

---
 src/naive/naive_consumable.cpp | 29 +++++++++++++++++++++++------
 src/naive/naive_consumable.h   | 16 +++++++++++++++-
 src/naive/naive_group.cpp      |  7 +++++++
 3 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index 80e459a..08727be 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -62,18 +62,35 @@ consumable::consume_resource()
     }
 }
 
+size_t
+consumable::resources() const
+{
+    return m_resources.load();
+}
+
 // Recursion is no risk because infinite recursion is guarded by checking
 // preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::wait_for_preceeding(
+  const std::chrono::milliseconds timeout) // NOLINT
 {
-    // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
-        } else {
+    const auto preceeding = std::atomic_load(&m_preceeding);
+    if (preceeding && preceeding.get() != this) {
+        if (!preceeding->wait_for_consumed(timeout)) {
             return false;
         }
+        // never needed again, do not keep it alive
+        std::atomic_store(&m_preceeding, consumable_ptr());
+    }
+    return true;
+}
+
+bool
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+{
+    // make sure that the preceeding consumable is satisfied
+    if (!wait_for_preceeding(timeout)) {
+        return false;
     }
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 3d69cb0..48cb2a1 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -90,8 +90,22 @@ public:
     bool wait_for_consumed(
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
+    /**
+        @brief Blocks until all resources of the preceeding consumable
+               have been consumed or the given timeout has passed
+
+        @return true if there is no unsatisfied preceeding consumable left
+     */
+    bool wait_for_preceeding(std::chrono::milliseconds timeout);
+
+    /**
+        @return The number of resources not consumed yet
+     */
+    size_t resources() const;
+
 private:
-    const consumable_ptr m_preceeding;
+    // only accessed by atomic operations, reset as soon as satisfied
+    consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 00d1f8e..fe4f0a9 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -67,6 +67,13 @@ public:
         consumable_ptr new_c;
         do {
             old_c = std::atomic_load(&m_consumable);
+            if (1 == old_c->resources() &&
+                old_c == std::atomic_load(&m_consumable)) {
+                // only the resource of the group is left, i.e. everything added
+                // since the previous wait is done. Remains what was added
+                // before
+                return old_c->wait_for_preceeding(timeout);
+            }
             new_c = std::make_shared<consumable>(1, old_c);
         } while (
           !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
-- 
2.43.0


From 687738bf2055fa959af298d7936e68f879f74c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 07/39] fix: let cancelable track concurrent calls and wait for
 all of them

---
 include/xdispatch/impl/cancelable.h | 29 +++++++-------------
 src/cancelable.cpp                  | 42 +++++++++++++++--------------
 2 files changed, 31 insertions(+), 40 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..1f1a23f 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -47,24 +47,15 @@ __XDISPATCH_BEGIN_NAMESPACE
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as not to be queued anywhere, i.e. no call will enter
+       it anymore. Waits for all calls which are active on other threads unless
+       invoked from within an active call.
     */
     void disable();
 
@@ -72,27 +63,25 @@ protected:
     friend class cancelable_scope;
 
     /**
-        Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        Notifies the entity that it is about to be called. Any number of
+        calls may be active at the same time.
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that the call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
+    // whether disabled and the number of active calls
+    std::atomic<unsigned> m_active;
     // barrier to ensure defined cancellation
     lightweight_barrier m_barrier;
 };
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..7a2081d 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,46 +27,48 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+static thread_local std::multiset<cancelable*> current_c;
+
+// the lowest bit of the state is the disabled flag, all
+// others make up the number of active calls
+static constexpr unsigned kDisabled = 1;
+static constexpr unsigned kCall = 2;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_active(0)
 {}
 
 void
 cancelable::disable()
 {
+    const auto previous = m_active.fetch_or(kDisabled);
     if (current_c.find(this) != current_c.end()) {
         // recursion
-        m_active.store(active_disabled);
-    } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+    } else if (previous >= kCall) {
+        // tried to disable while still running
+        m_barrier.wait();
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
-    }
-    // disabled
-    return false;
+    auto current = m_active.load();
+    do {
+        if (current & kDisabled) {
+            return false;
+        }
+    } while (!m_active.compare_exchange_weak(current, current + kCall));
+    current_c.insert(this);
+    return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
+    current_c.erase(current_c.find(this));
+    if ((kCall | kDisabled) == m_active.fetch_sub(kCall)) {
+        // disabled in the meantime and this was the last call
         m_barrier.complete();
     }
 }
-- 
2.43.0


From c4e5570b3c35545bd8aab654804095f699402a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 08/39] fix: keep a single schedule when a timer is suspended
 and resumed

---
 src/naive/naive_timer.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index aef841f..d8457d3 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -44,6 +44,8 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_worker_cookie(0)
+      , m_cancelled(false)
       , m_cancelable()
     {}
 
@@ -78,23 +80,28 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_cancelled) {
+            // a cancelled timer cannot be reused
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
         const auto this_ptr = shared_from_this();
+        const auto cookie = m_worker_cookie;
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, cookie, delay] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            while (cookie == this_ptr->m_worker_cookie) {
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
@@ -132,7 +139,11 @@ public:
     void suspend() override
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        --m_running;
+        // when we have just suspended increment the cookie so that the worker
+        // kicked off before ends even if resumed until it gets to check
+        if (0 == --m_running) {
+            ++m_worker_cookie;
+        }
     }
 
     void cancel() override
@@ -140,6 +151,8 @@ public:
         {
             std::lock_guard<std::mutex> lock(m_CS);
             m_running = 0;
+            m_cancelled = true;
+            ++m_worker_cookie;
         }
         m_cancelable.disable();
     }
@@ -154,6 +167,8 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    int m_worker_cookie;
+    bool m_cancelled;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From 34502e486d6e9da67a9f15b6419488fff660abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 09/39] fix: never run a timer's handler twice at a time when
 it is suspended and resumed

---
 src/naive/naive_timer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index d8457d3..f376f79 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -24,7 +24,6 @@
 #include "xdispatch/impl/iqueue_impl.h"
 
 #include "naive_threadpool.h"
-#include "naive_inverse_lockguard.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
@@ -100,14 +99,20 @@ public:
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
-            std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (cookie == this_ptr->m_worker_cookie) {
+            for (;;) {
+                // a worker of a previous cycle may still be busy with the
+                // handler, ensure it will never execute twice at a time
+                std::unique_lock<std::mutex> round(this_ptr->m_round_CS);
+                std::unique_lock<std::mutex> lock(this_ptr->m_CS);
+                if (cookie != this_ptr->m_worker_cookie) {
+                    break;
+                }
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
                 auto& cancelable = this_ptr->m_cancelable;
 
-                inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                lock.unlock();
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
@@ -122,6 +127,7 @@ public:
                     barrier.complete();
                 }));
                 barrier.wait();
+                round.unlock();
 
                 if (interval.count() > 0) {
                     std::this_thread::sleep_for(interval);
@@ -162,6 +168,7 @@ public:
 private:
     const backend_type m_backend;
     std::mutex m_CS;
+    std::mutex m_round_CS;
     std::chrono::milliseconds m_interval;
     iqueue_impl_ptr m_queue;
     ithreadpool_ptr m_pool;
-- 
2.43.0


From 10a33ec965886c7fdada2758447df02c495916c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 10/39] fix: stop monitoring a socket which was closed

---
 src/naive/naive_socket_notifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 64584d7..283d178 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -140,7 +140,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
+                if (res < 0 && EBADF == errno) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
-- 
2.43.0


From 21351c0587de866334a89be0457d63b7e13f6ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 11/39] fix: never run a socket notifier's handler twice at a
 time when it is suspended and resumed

---
 src/naive/naive_socket_notifier.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 283d178..334bf06 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -34,6 +34,7 @@
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
+#include <atomic>
 #include <cerrno>
 #include <cstring>
 
@@ -59,6 +60,7 @@ public:
       , m_handler()
       , m_resume_counter(0)
       , m_worker_cookie(0)
+      , m_rounds(0)
     {}
 
     ~socket_notifier_impl() override { socket_notifier_impl::suspend(); }
@@ -87,10 +89,6 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
-
         const auto this_ptr = shared_from_this();
         const auto cookie = m_worker_cookie;
 
@@ -105,6 +103,7 @@ public:
             while (cookie == this_ptr->m_worker_cookie) {
                 const auto socket = this_ptr->m_socket;
                 const auto type = this_ptr->m_type;
+                const unsigned rounds = this_ptr->m_rounds;
 
                 int res = -1;
                 {
@@ -150,6 +149,20 @@ public:
                 if (res == 0) {
                     // timeout, try again
                 } else if (res > 0) {
+                    // a worker of a previous cycle may still be busy with the
+                    // handler, ensure it will never execute twice at a time
+                    // and check the socket again if it did since
+                    std::unique_lock<std::mutex> round(this_ptr->m_round_CS,
+                                                       std::try_to_lock);
+                    if (!round) {
+                        inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                        round.lock();
+                        continue;
+                    }
+                    if (rounds != this_ptr->m_rounds) {
+                        continue;
+                    }
+
                     XDISPATCH_TRACE() << "socket_notifier: select(" << socket
                                       << ") returned " << res;
 
@@ -175,6 +188,7 @@ public:
                           barrier.complete();
                       }));
                     barrier.wait();
+                    ++this_ptr->m_rounds;
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
                                         << ") failed: " << strerror(errno);
@@ -219,6 +233,7 @@ public:
 private:
     const backend_type m_backend;
     std::mutex m_CS;
+    std::mutex m_round_CS;
     const socket_t m_socket;
     const notifier_type m_type;
     iqueue_impl_ptr m_queue;
@@ -226,6 +241,7 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    std::atomic<unsigned> m_rounds;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From 2caa9259b5932359a69a2417bd32471afd9a9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 12/39] fix: release the timer of waitable_queue::after

---
 src/waitable_queue.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..4ee3ee2 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -157,13 +157,10 @@ public:
     void after(std::chrono::milliseconds delay,
                const operation_ptr& op) override
     {
-        auto timer =
-          backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          backend_for_type(backend()).create_timer(shared_from_this()),
+          delay,
+          op);
     }
 
     backend_type backend() override
-- 
2.43.0


From 2f121bdb4d97265422ced8aacbc80443b3630d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 13/39] fix: let the pool know about threads blocked by a
 waitable_queue

---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4ee3ee2..7532309 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -24,6 +24,7 @@
 #include <mutex>
 
 #include "xdispatch_internal.h"
+#include "xdispatch/backend_naive_ithreadpool.h"
 #include "xdispatch/waitable_queue.h"
 #include "xdispatch/impl/iqueue_impl.h"
 #include "xdispatch/impl/itimer_impl.h"
@@ -50,6 +51,7 @@ public:
         std::unique_lock<std::mutex> lock(m_CS);
         // wait for parallel executions to complete
         if (m_active) {
+            naive::ithreadpool::block_scope blocked;
             m_cond.wait(lock, [this] { return !m_active; });
         }
         // we are the active worker now
@@ -82,6 +84,7 @@ public:
             // we can just wait for it to complete and will not deadlock
             if (m_active) {
                 XDISPATCH_TRACE() << "Waiting for active operation";
+                naive::ithreadpool::block_scope blocked;
                 m_cond.wait(lock, [this] { return !m_active; });
             }
             // there is some chance nothing was queued to begin with
-- 
2.43.0


From 643451697f080abbd82e319997746a8509573d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 14/39] fix: make waitable_queue wait for exactly the
 operations queued before

---
 src/waitable_queue.cpp | 62 +++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 7532309..bbf5576 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -19,6 +19,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <list>
 #include <condition_variable>
 #include <mutex>
@@ -40,7 +41,9 @@ public:
       : m_CS()
       , m_cond()
       , m_operations()
+      , m_added(0)
       , m_completed(0)
+      , m_waited(0)
       , m_active(false)
     {}
 
@@ -79,38 +82,50 @@ public:
 
     void wait_for_one(std::unique_lock<std::mutex>& lock)
     {
-        while (0 == m_completed) {
-            // when the queue is already active processing a queued operation
-            // we can just wait for it to complete and will not deadlock
-            if (m_active) {
-                XDISPATCH_TRACE() << "Waiting for active operation";
-                naive::ithreadpool::block_scope blocked;
-                m_cond.wait(lock, [this] { return !m_active; });
-            }
+        while (m_waited == m_completed) {
             // there is some chance nothing was queued to begin with
-            else if (m_operations.empty()) {
+            if (!m_active && m_operations.empty()) {
                 XDISPATCH_TRACE() << "No operations to wait for";
                 return;
             }
-            // when the queue is not active we can just take over and do the
-            // processing as the queue would need to get scheduled first
-            else {
-                lock.unlock();
-                XDISPATCH_TRACE()
-                  << "Operation queue is starving, execute directly";
-                drain_one();
-                lock.lock();
-            }
+            wait_for_progress(lock);
         }
-        // decrement the completion counter
-        --m_completed;
+        // the completed operation has been waited for
+        ++m_waited;
     }
 
     void wait_for_all()
     {
         std::unique_lock<std::mutex> lock(m_CS);
-        while (m_active || !m_operations.empty()) {
-            wait_for_one(lock);
+        // operations may be added while waiting, do not wait for these
+        const auto added = m_added;
+        while (m_completed < added) {
+            wait_for_progress(lock);
+        }
+        // all of the operations have been waited for
+        m_waited = std::max(m_waited, added);
+    }
+
+    void wait_for_progress(std::unique_lock<std::mutex>& lock)
+    {
+        // when the queue is already active processing a queued operation
+        // we can just wait for it to complete and will not deadlock
+        if (m_active) {
+            XDISPATCH_TRACE() << "Waiting for active operation";
+            naive::ithreadpool::block_scope blocked;
+            const auto completed = m_completed;
+            m_cond.wait(lock, [this, completed] {
+                return !m_active || completed != m_completed;
+            });
+        }
+        // when the queue is not active we can just take over and do the
+        // processing as the queue would need to get scheduled first
+        else {
+            lock.unlock();
+            XDISPATCH_TRACE()
+              << "Operation queue is starving, execute directly";
+            drain_one();
+            lock.lock();
         }
     }
 
@@ -118,6 +133,7 @@ public:
     {
         std::unique_lock<std::mutex> lock(m_CS);
         m_operations.push_back(op);
+        ++m_added;
     }
 
 private:
@@ -125,7 +141,9 @@ private:
     std::condition_variable m_cond;
 
     std::list<operation_ptr> m_operations;
+    size_t m_added;
     size_t m_completed;
+    size_t m_waited;
     bool m_active;
 };
 
-- 
2.43.0


From bafbb1f29ab6524d692c65613117f01e51d810e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 15/39] fix: let connections find out that their signal is gone

Connections kept a plain pointer to the signal and told from the lifetime of
the handler whether they are connected. A connection which outlived its signal
hence used a destroyed object, and copies of a connection still reported to be
connected while an invocation was pending. The destructor of the signal waited
for handlers holding the lock which those need to disconnect themselves.
---
 include/xdispatch/signals.h |  36 +++++++++---
 src/signals.cpp             | 106 +++++++++++++++++++++---------------
 2 files changed, 91 insertions(+), 51 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..662536b 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -89,14 +89,13 @@ public:
     bool operator!=(const connection& other) const;
 
 protected:
-    connection(const std::shared_ptr<void>& id, signal_p* parent);
+    explicit connection(const std::shared_ptr<void>& id);
 
 private:
     friend class signal_p;
     friend class scoped_connection;
 
     std::weak_ptr<void> m_id;
-    signal_p* m_parent;
 };
 
 /**
@@ -188,8 +187,11 @@ enum class notification_mode
 class XDISPATCH_EXPORT signal_p
 {
 protected:
+    friend class connection;
+
     class connection_handler;
     using connection_handler_ptr = std::shared_ptr<connection_handler>;
+    struct connection_list;
 
 public:
     /// Creates a new signal_p queuing all handler invocations into group
@@ -247,6 +249,15 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        /// Removes the handler from its signal and disables it
+        ///
+        /// @returns true if the handler had not been removed before
+        bool disconnect();
+
+        // the signal the handler is connected to
+        std::weak_ptr<connection_list> m_parent;
+        // becomes false once the handler was removed from the signal
+        std::atomic<bool> m_connected;
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
@@ -257,12 +268,20 @@ protected:
         notification_mode m_mode;
     };
 
-    // Protects parallel access
-    std::mutex m_CS;
+    /// Private container class for the connected handlers, connections
+    /// may outlive the signal and use it to find out
+    struct connection_list
+    {
+        // Protects parallel access
+        std::mutex m_CS;
+        // List of connected handlers
+        std::vector<connection_handler_ptr> m_handlers;
+    };
+
     // The group used to track all handler calls
     std::unique_ptr<group> m_group;
-    // List of connected handlers
-    std::vector<connection_handler_ptr> m_handlers;
+    // The connected handlers
+    const std::shared_ptr<connection_list> m_connections;
 };
 
 template<typename Signature>
@@ -385,9 +404,10 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::mutex> lock(m_CS);
+        std::lock_guard<std::mutex> lock(m_connections->m_CS);
 
-        for (const connection_handler_ptr& handler : m_handlers) {
+        for (const connection_handler_ptr& handler :
+             m_connections->m_handlers) {
             auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..8f3f4c9 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -64,7 +64,7 @@ scoped_connection::scoped_connection(const connection& c)
 {}
 
 scoped_connection::scoped_connection()
-  : connection(nullptr, nullptr)
+  : connection(nullptr)
 {
     // a disconnected connection, e.g. for member variables
 }
@@ -74,7 +74,6 @@ scoped_connection::scoped_connection(scoped_connection&& other) noexcept
 {
     // NOLINTBEGIN(bugprone-use-after-move)
     other.m_id.reset();
-    other.m_parent = nullptr;
     // NOLINTEND(bugprone-use-after-move)
 }
 
@@ -97,7 +96,6 @@ scoped_connection::operator=(scoped_connection&& other) noexcept
     connection::disconnect();
     connection::operator=(other);
     other.m_id.reset();
-    other.m_parent = nullptr;
     return *this;
 }
 
@@ -106,54 +104,52 @@ scoped_connection::take()
 {
     connection other;
     other.m_id = m_id;
-    other.m_parent = m_parent;
     m_id.reset();
-    m_parent = nullptr;
     return other;
 }
 
-connection::connection(const std::shared_ptr<void>& id, signal_p* parent)
+connection::connection(const std::shared_ptr<void>& id)
   : m_id(id)
-  , m_parent(parent)
 {
     // nothing, an empty connection is fine
 }
 
 connection::connection()
-  : connection(nullptr, nullptr)
+  : connection(nullptr)
 {}
 
 bool
 connection::disconnect()
 {
-    bool disconnected = false;
-    if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
-    }
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
     m_id.reset();
-    m_parent = nullptr;
-    return disconnected;
+    return handler && handler->disconnect();
 }
 
 bool
 connection::connected() const
 {
-    return !m_id.expired();
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    return handler && handler->m_connected;
 }
 
 bool
 connection::is_connected_to(const signal_p& signal) const
 {
-    const auto* const signal_ptr = &signal;
-    return signal_ptr == m_parent;
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    return handler && handler->m_connected &&
+           signal.m_connections == handler->m_parent.lock();
 }
 
 bool
 connection::operator==(const connection& other) const
 {
-    const auto id = m_id.lock();
-    const auto other_id = other.m_id.lock();
-    return id == other_id && m_parent == other.m_parent;
+    const auto is_connected = connected();
+    return is_connected == other.connected() &&
+           (!is_connected || m_id.lock() == other.m_id.lock());
 }
 
 bool
@@ -164,7 +160,8 @@ connection::operator!=(const connection& other) const
 
 signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
-  : m_queue(q)
+  : m_connected(false)
+  , m_queue(q)
   , m_active()
   , m_pending(0)
   , m_mode(m)
@@ -176,49 +173,70 @@ signal_p::connection_handler::disable()
     m_active.disable();
 }
 
+bool
+signal_p::connection_handler::disconnect()
+{
+    // also done if somebody else disconnected the handler
+    // because it may still be active then
+    disable();
+
+    bool disconnected = false;
+    if (const auto parent = m_parent.lock()) {
+        std::lock_guard<std::mutex> lock(parent->m_CS);
+        auto& handlers = parent->m_handlers;
+        const auto last =
+          std::remove_if(handlers.begin(),
+                         handlers.end(),
+                         [this](const connection_handler_ptr& handler) {
+                             return this == handler.get();
+                         });
+        disconnected = handlers.end() != last;
+        handlers.erase(last, handlers.end());
+        m_connected = false;
+    }
+    return disconnected;
+}
+
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
+  , m_connections(std::make_shared<connection_list>())
 {}
 
 signal_p::signal_p()
   : m_group()
+  , m_connections(std::make_shared<connection_list>())
 {}
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::vector<connection_handler_ptr> handlers;
+    {
+        std::lock_guard<std::mutex> lock(m_connections->m_CS);
+        handlers.swap(m_connections->m_handlers);
+        for (const auto& handler : handlers) {
+            handler->m_connected = false;
+        }
+    }
 
-    for (const auto& handler : m_handlers) {
+    // not holding the lock as this will wait for
+    // active handlers which may use the connections
+    for (const auto& handler : handlers) {
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
 signal_p::disconnect(connection& c)
 {
-    const auto c_void = c.m_id.lock();
-    const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
-    if (c_handler) {
-        std::lock_guard<std::mutex> lock(m_CS);
-        const auto last =
-          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
-        m_handlers.erase(last, m_handlers.end());
-    }
-    c.m_id.reset();
-    if (c_handler) {
-        c_handler->disable();
-        return true;
-    }
-    return false;
+    return c.disconnect();
 }
 
 void
 signal_p::skip_all()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::lock_guard<std::mutex> lock(m_connections->m_CS);
 
-    for (const auto& handler : m_handlers) {
+    for (const auto& handler : m_connections->m_handlers) {
         handler->disable();
     }
 }
@@ -226,11 +244,13 @@ signal_p::skip_all()
 connection
 signal_p::connect(const connection_handler_ptr& job)
 {
+    job->m_parent = m_connections;
+    job->m_connected = true;
     {
-        std::lock_guard<std::mutex> lock(m_CS);
-        m_handlers.push_back(job);
+        std::lock_guard<std::mutex> lock(m_connections->m_CS);
+        m_connections->m_handlers.push_back(job);
     }
-    return connection(job, this);
+    return connection(job);
 }
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From e39806e18108f56962af4dbcb7e5fbffc847ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 16/39] fix: allow synchronous handlers to use their signal

A handler invoked synchronously deadlocked when it emitted the signal again,
connected another handler or disconnected itself.
---
 include/xdispatch/signals.h | 12 +++++++-----
 src/signals.cpp             |  8 ++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 662536b..bbcd463 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -272,8 +272,9 @@ protected:
     /// may outlive the signal and use it to find out
     struct connection_list
     {
-        // Protects parallel access
-        std::mutex m_CS;
+        // Protects parallel access, synchronous
+        // handlers may use the signal recursively
+        std::recursive_mutex m_CS;
         // List of connected handlers
         std::vector<connection_handler_ptr> m_handlers;
     };
@@ -404,10 +405,11 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::mutex> lock(m_connections->m_CS);
+        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
 
-        for (const connection_handler_ptr& handler :
-             m_connections->m_handlers) {
+        // synchronous handlers may connect or disconnect others
+        const auto handlers = m_connections->m_handlers;
+        for (const connection_handler_ptr& handler : handlers) {
             auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
diff --git a/src/signals.cpp b/src/signals.cpp
index 8f3f4c9..5178f09 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -182,7 +182,7 @@ signal_p::connection_handler::disconnect()
 
     bool disconnected = false;
     if (const auto parent = m_parent.lock()) {
-        std::lock_guard<std::mutex> lock(parent->m_CS);
+        std::lock_guard<std::recursive_mutex> lock(parent->m_CS);
         auto& handlers = parent->m_handlers;
         const auto last =
           std::remove_if(handlers.begin(),
@@ -211,7 +211,7 @@ signal_p::~signal_p()
 {
     std::vector<connection_handler_ptr> handlers;
     {
-        std::lock_guard<std::mutex> lock(m_connections->m_CS);
+        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
         handlers.swap(m_connections->m_handlers);
         for (const auto& handler : handlers) {
             handler->m_connected = false;
@@ -234,7 +234,7 @@ signal_p::disconnect(connection& c)
 void
 signal_p::skip_all()
 {
-    std::lock_guard<std::mutex> lock(m_connections->m_CS);
+    std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
 
     for (const auto& handler : m_connections->m_handlers) {
         handler->disable();
@@ -247,7 +247,7 @@ signal_p::connect(const connection_handler_ptr& job)
     job->m_parent = m_connections;
     job->m_connected = true;
     {
-        std::lock_guard<std::mutex> lock(m_connections->m_CS);
+        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
         m_connections->m_handlers.push_back(job);
     }
     return connection(job);
-- 
2.43.0


From 343aadcbafa3324f36693f04c65eb2b4dda7e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 17/39] fix: do not hold the lock of a connection_manager while
 disconnecting

Disconnecting waits for active handlers, a handler which used the manager
itself hence was waiting forever.
---
 include/xdispatch/signals.h |  2 ++
 src/signals.cpp             | 43 ++++++++++++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index bbcd463..8e05328 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -476,6 +476,8 @@ public:
 private:
     connection_manager(const connection_manager&) = delete;
 
+    void reset(const std::function<bool(const connection&)>& predicate);
+
     std::mutex m_CS;
     std::vector<scoped_connection> m_connections;
 };
diff --git a/src/signals.cpp b/src/signals.cpp
index 5178f09..cfe3462 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,45 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    reset([](const connection&) { return true; });
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    reset([&s](const connection& c) { return c.is_connected_to(s); });
+}
+
+void
+connection_manager::reset(
+  const std::function<bool(const connection&)>& predicate)
+{
+    // not disconnecting with the lock held as this will wait
+    // for active handlers which may use the manager themselves
+    std::vector<connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::copy_if(m_connections.begin(),
+                     m_connections.end(),
+                     std::back_inserter(connections),
+                     predicate);
+    }
+    for (auto& c : connections) {
+        c.disconnect();
+    }
+
+    // managed until here so that anybody resetting
+    // them at the same time will wait as well
+    std::vector<scoped_connection> done;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        const auto last = std::stable_partition(
+          m_connections.begin(),
+          m_connections.end(),
+          [](const scoped_connection& sc) { return sc.connected(); });
+        std::move(last, m_connections.end(), std::back_inserter(done));
+        m_connections.erase(last, m_connections.end());
+    }
 }
 
 connection_manager&
-- 
2.43.0


From eb4831940662ba8df0c0dcec8448a5713f134570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 18/39] fix: let signal handlers receive emits after skip_all

Skipping disabled the connected handlers for good, and deadlocked with handlers
using their signal because it waited for them while holding the lock.
---
 include/xdispatch/signals.h | 23 ++++++++++++++++-------
 src/signals.cpp             | 18 ++++++++++++++----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 8e05328..fb1690c 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -262,8 +262,15 @@ protected:
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the items that have been queued and not been skipped
+        struct queued_items
+        {
+            cancelable m_active;
+            // the number of items that have been queued
+            std::atomic<int> m_pending{ 0 };
+        };
+        // protected by the list of connections
+        std::shared_ptr<queued_items> m_queued;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -410,11 +417,12 @@ public:
         // synchronous handlers may connect or disconnect others
         const auto handlers = m_connections->m_handlers;
         for (const connection_handler_ptr& handler : handlers) {
-            auto pending = handler->m_pending++;
+            const auto queued = handler->m_queued;
+            auto pending = queued->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
+                    queued->m_pending--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
@@ -422,8 +430,9 @@ public:
                        pending < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    cancelable_scope skip_scope(queued->m_active);
+                    if (cancel_scope && skip_scope) {
+                        queued->m_pending--;
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -434,7 +443,7 @@ public:
                     handler->m_queue.async(std::move(invocation));
                 }
             } else {
-                handler->m_pending--;
+                queued->m_pending--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index cfe3462..e2fdfd5 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -190,7 +190,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
   : m_connected(false)
   , m_queue(q)
   , m_active()
-  , m_pending(0)
+  , m_queued(std::make_shared<queued_items>())
   , m_mode(m)
 {}
 
@@ -261,10 +261,20 @@ signal_p::disconnect(connection& c)
 void
 signal_p::skip_all()
 {
-    std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
+    std::vector<std::shared_ptr<connection_handler::queued_items>> skipped;
+    {
+        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
+        for (const auto& handler : m_connections->m_handlers) {
+            skipped.push_back(handler->m_queued);
+            handler->m_queued =
+              std::make_shared<connection_handler::queued_items>();
+        }
+    }
 
-    for (const auto& handler : m_connections->m_handlers) {
-        handler->disable();
+    // not holding the lock as this will wait for
+    // active handlers which may use the signal
+    for (const auto& queued : skipped) {
+        queued->m_active.disable();
     }
 }
 
-- 
2.43.0


From 95565b964755544e240bb12ed2ac5f7471580e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 19/39] fix: let signal_barrier cope with parallel and late
 raises

The handler of the barrier used its members without synchronization: raises
handled in parallel changed the values after the barrier had passed, a raise
right after connecting used members which were not constructed yet, and a
passed barrier could be destroyed while the handler still used it.
---
 include/xdispatch/signals_barrier.h | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..f328290 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -92,12 +92,8 @@ public:
      */
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
-      , m_barrier()
-      , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
-      }))
+      , m_state(std::make_shared<state>())
+      , m_connection(connect(signal, m_state))
     {}
 
     /**
@@ -114,7 +110,7 @@ public:
     inline bool wait(
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1))
     {
-        return m_barrier.wait(timeout);
+        return m_state->m_barrier.wait(timeout);
     }
 
     /**
@@ -127,8 +123,8 @@ public:
      */
     inline std::tuple<Args...> values() const
     {
-        if (m_barrier.was_completed()) {
-            return m_values.get();
+        if (m_state->m_barrier.was_completed()) {
+            return m_state->m_values.get();
         }
         throw std::runtime_error("Barrier was not signalled yet");
     }
@@ -152,10 +148,30 @@ public:
     }
 
 private:
+    /// The parts used by the handler, which may be
+    /// executing several times in parallel
+    struct state
+    {
+        std::atomic<bool> m_raised{ false };
+        value_holder<0> m_values;
+        lightweight_barrier m_barrier;
+    };
+
+    static connection connect(signal<void(Args...)>& signal,
+                              const std::shared_ptr<state>& s)
+    {
+        return signal.connect([s](Args... values) {
+            // only the first raise is of interest
+            if (!s->m_raised.exchange(true)) {
+                s->m_values.set(values...);
+                s->m_barrier.complete();
+            }
+        });
+    }
+
     signal<void(Args...)>& m_signal;
-    lightweight_barrier m_barrier;
+    const std::shared_ptr<state> m_state;
     scoped_connection m_connection;
-    value_holder<0> m_values;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 964f5b6e1f55b44cb6d517f2279eee2f1ef16405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 20/39] fix: never release a pool on one of its own threads

Queues released their reference to the pool after asking the manager to do so,
depending on the timing the pool was then destroyed by the thread dropping the
queue, possibly by one of its own. The manager also forgot about a pool once
the first of its queues was gone.
---
 src/naive/naive_operation_queue_manager.cpp | 8 ++++----
 src/naive/naive_parallel_queue.cpp          | 6 +++++-
 src/naive/naive_serial_queue.cpp            | 9 ++++++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..c7dbffd 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -39,11 +39,11 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
+        // only once, a pool is attached by each of its queues
+        for (auto it = m_queues.begin(); it != m_queues.end(); ++it) {
             if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
+                m_queues.erase(it);
+                break;
             }
         }
     }));
diff --git a/src/naive/naive_parallel_queue.cpp b/src/naive/naive_parallel_queue.cpp
index be99bed..58da2b9 100644
--- a/src/naive/naive_parallel_queue.cpp
+++ b/src/naive/naive_parallel_queue.cpp
@@ -47,7 +47,11 @@ public:
 
     ~parallel_queue_impl() override
     {
-        operation_queue_manager::instance().detach(m_pool.get());
+        // leave it to the manager to release the last reference, we may be
+        // running on a thread of the pool which must not delete itself
+        const auto* const pool = m_pool.get();
+        m_pool.reset();
+        operation_queue_manager::instance().detach(pool);
     }
 
     void async(const operation_ptr& op) final
diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index 12bd9d6..0ebedbd 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -49,7 +49,14 @@ public:
         m_queue->attach();
     }
 
-    ~serial_queue_impl() override { m_queue->detach(); }
+    ~serial_queue_impl() override
+    {
+        // leave it to the manager to release the last reference, we may be
+        // running on a thread of the pool which must not delete itself
+        auto* const queue = m_queue.get();
+        m_queue.reset();
+        queue->detach();
+    }
 
     void async(const operation_ptr& op) final { m_queue->async(op); }
 
-- 
2.43.0


From 997d76e19e7525c0dcd404d36db8bdecc1b4a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 21/39] fix: order the last use of an element before the reuse
 of its block

Several consumers may empty one block of an implicit producer. The one
which completes it only released its own accesses but never acquired those
of the others, hence a producer reusing the block was not synchronized with
all of them (same change as done upstream).
---
 src/naive/3rdparty/concurrentqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naive/3rdparty/concurrentqueue.h b/src/naive/3rdparty/concurrentqueue.h
index e90b9c2..9e9fe2e 100644
--- a/src/naive/3rdparty/concurrentqueue.h
+++ b/src/naive/3rdparty/concurrentqueue.h
@@ -1841,7 +1841,7 @@ private:
             else
             {
                 // Increment counter
-                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_release );
+                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_acq_rel );
                 assert( prevVal < BLOCK_SIZE );
                 return prevVal == BLOCK_SIZE - 1;
             }
@@ -1867,7 +1867,7 @@ private:
             else
             {
                 // Increment counter
-                auto prevVal = elementsCompletelyDequeued.fetch_add( count, std::memory_order_release );
+                auto prevVal = elementsCompletelyDequeued.fetch_add( count, std::memory_order_acq_rel );
                 assert( prevVal + count <= BLOCK_SIZE );
                 return prevVal + count == BLOCK_SIZE;
             }
-- 
2.43.0


From 0a723e3f4004812e72a0a40a96ae9aa4bc590782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 22/39] fix: let a QThreadPool make up for blocked threads

A reserved thread counts as an additional active one, so a blocked thread
even took another one away and e.g. apply() within an operation never
returned on a pool of one or two threads. Release the blocked thread instead
and reserve it again when it proceeds, as documented by Qt.
---
 src/qt5/qt5_threadpool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..d2649c0 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // lets the pool start another thread in place of the blocked one
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From 704d814d13bd524f54dadd697a50a7ec39889f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 23/39] fix: do not access a QThreadPool after the last use of
 its queue

The destructor of the pool's proxy waited for the QThreadPool. It runs
whenever the last reference to a queue is dropped, possibly on an internal
thread and after the owner of the QThreadPool deleted it. Keep the proxy
alive for as long as work is pending instead of waiting.
---
 src/qt5/qt5_threadpool.cpp | 18 ++++++++----------
 src/qt5/qt5_threadpool.h   |  4 +++-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index d2649c0..a968b41 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -34,12 +34,7 @@ ThreadPoolProxy::ThreadPoolProxy(QThreadPool* pool)
     XDISPATCH_ASSERT(pool);
 }
 
-ThreadPoolProxy::~ThreadPoolProxy()
-{
-    if (m_pool) {
-        m_pool->waitForDone();
-    }
-}
+ThreadPoolProxy::~ThreadPoolProxy() = default;
 
 void
 ThreadPoolProxy::execute(const operation_ptr& work,
@@ -48,7 +43,8 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     class OperationRunnable : public QRunnable
     {
     public:
-        OperationRunnable(const operation_ptr& op, naive::ithreadpool* pool)
+        OperationRunnable(const operation_ptr& op,
+                          const std::shared_ptr<ThreadPoolProxy>& pool)
           : m_operation(op)
           , m_pool(pool)
         {
@@ -57,12 +53,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 
         void run() final
         {
-            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);
+            naive::ithreadpool::run_with_threadpool(*m_operation,
+                                                    m_pool.get());
         }
 
     private:
         const operation_ptr m_operation;
-        naive::ithreadpool* const m_pool;
+        // needs to stay around for as long as there is work pending
+        const std::shared_ptr<ThreadPoolProxy> m_pool;
     };
 
     int p = 0;
@@ -83,7 +81,7 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     }
 
     XDISPATCH_ASSERT(m_pool);
-    m_pool->start(new OperationRunnable(work, this), p);
+    m_pool->start(new OperationRunnable(work, shared_from_this()), p);
 }
 
 void
diff --git a/src/qt5/qt5_threadpool.h b/src/qt5/qt5_threadpool.h
index e9f26fd..8b6a333 100644
--- a/src/qt5/qt5_threadpool.h
+++ b/src/qt5/qt5_threadpool.h
@@ -30,7 +30,9 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace qt5 {
 
-class ThreadPoolProxy : public naive::ithreadpool
+class ThreadPoolProxy
+  : public naive::ithreadpool
+  , public std::enable_shared_from_this<ThreadPoolProxy>
 {
 public:
     ThreadPoolProxy(QThreadPool* pool);
-- 
2.43.0


From c9df06cfb9d8359ba429b206ed5f70dd9b0527d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 24/39] fix: throw the documented exception when backends are
 mixed

The assertion in front of it terminated the process, it is active in all
builds.
---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From b3ab3ad10396a6b87e29ead6e4b85441be04a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 25/39] fix: wake or spawn a thread for each operation added to
 a threadpool

An idle thread was counted as idle until it actually woke up. Operations
added before that moment did not get a thread of their own and had to wait
for the first of them to complete, even forever when that one depended on
them, although the limit of the pool was not reached.
---
 src/naive/naive_threadpool.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index abc0aea..74118cc 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -80,12 +80,14 @@ public:
       , m_max_threads(0)
       , m_active_threads(0)
       , m_idle_threads(0)
+      , m_unfinished_operations(0)
       , m_operations()
       , m_cancelled(false)
     {
         XDISPATCH_ASSERT(m_max_threads.is_lock_free());
         XDISPATCH_ASSERT(m_active_threads.is_lock_free());
         XDISPATCH_ASSERT(m_idle_threads.is_lock_free());
+        XDISPATCH_ASSERT(m_unfinished_operations.is_lock_free());
     }
 
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
@@ -99,6 +101,8 @@ public:
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     std::atomic<int> m_idle_threads;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
+    std::atomic<int> m_unfinished_operations;
+    // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     std::array<concurrentqueue<operation_ptr>, bucket_count> m_operations;
     // NOLINTNEXTLINE(misc-non-private-member-variables-in-classes)
     std::atomic<bool> m_cancelled;
@@ -224,6 +228,8 @@ public:
 
                 run_with_threadpool(*op, m_data->m_pool);
                 op.reset();
+                m_data->m_unfinished_operations.fetch_sub(
+                  1, std::memory_order_release);
             }
         }
 
@@ -280,6 +286,7 @@ threadpool::execute(const operation_ptr& work, const queue_priority priority)
     }
 
     XDISPATCH_ASSERT(index >= 0);
+    m_data->m_unfinished_operations.fetch_add(1, std::memory_order_acq_rel);
     const auto enqueued = m_data->m_operations[index].enqueue(work);
     XDISPATCH_ASSERT(enqueued);
     if (enqueued) {
@@ -309,16 +316,17 @@ threadpool::schedule()
     int active_threads =
       m_data->m_active_threads.load(std::memory_order_consume);
     do {
-        // lets check if there is an idle thread first
-        const int idle_threads =
-          m_data->m_idle_threads.load(std::memory_order_consume);
-        XDISPATCH_ASSERT(idle_threads >= 0);
+        // lets check if there is a thread for each of the operations first, an
+        // idle thread may not have woken up yet for an operation added before
+        // and hence be counted as idle although it is going to be busy
+        const int operations =
+          m_data->m_unfinished_operations.load(std::memory_order_acquire);
+        XDISPATCH_ASSERT(operations >= 0);
         XDISPATCH_ASSERT(active_threads >= 0);
 
-        if (idle_threads > 0) {
-            // idle count will be decremented by thread waking up again
-            XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
-              << "Woke an idle thread";
+        if (operations <= active_threads) {
+            XDISPATCH_TP_TRACE(this, active_threads, operations)
+              << "Reused an existing thread";
             return;
         }
         // check if we are good to create another thread
-- 
2.43.0


From b5b1a805ed843ee57ff8d50b21adb11fd0f0ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 26/39] fix: limit the time waited for a group to its timeout

The full timeout was applied again to each batch of operations in the
chain so that wait() could take a multiple of it.
---
 src/naive/naive_consumable.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index 08727be..763a83f 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -19,6 +19,9 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+#include <chrono>
+
 #include "naive_consumable.h"
 #include "naive_threadpool.h"
 #include "naive_backend_internal.h"
@@ -88,6 +91,7 @@ consumable::wait_for_preceeding(
 bool
 consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
 {
+    const auto begin = std::chrono::steady_clock::now();
     // make sure that the preceeding consumable is satisfied
     if (!wait_for_preceeding(timeout)) {
         return false;
@@ -98,8 +102,16 @@ consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
     if (0 == m_resources.load()) {
         return true;
     }
+    // the time spent waiting for the preceeding consumable is used up
+    auto remaining = timeout;
+    if (timeout > std::chrono::milliseconds::zero()) {
+        remaining = std::max(
+          std::chrono::milliseconds::zero(),
+          timeout - std::chrono::duration_cast<std::chrono::milliseconds>(
+                      std::chrono::steady_clock::now() - begin));
+    }
     ithreadpool::block_scope blocked;
-    const auto ret = m_barrier.wait(timeout);
+    const auto ret = m_barrier.wait(remaining);
     return ret;
 }
 
-- 
2.43.0


From c88cd235df6cfa49e3a710fa22b394f5fa018fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:15 +0000
Subject: [PATCH 27/39] fix: let every thread adding operations to a threadpool
 have its turn

---
 src/naive/naive_threadpool.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 74118cc..65bb579 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -25,6 +25,8 @@
 #include "naive_threadpool.h"
 #include "naive_operation_queue_manager.h"
 
+#include <vector>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -130,6 +132,14 @@ public:
         static constexpr auto skMaxSleepBeforeThreadExit =
           std::chrono::seconds(30);
 
+        // taking operations with a token makes sure each of the threads adding
+        // operations gets its turn even if some of them never cease to do so
+        std::vector<moodycamel::ConsumerToken> tokens;
+        tokens.reserve(bucket_count);
+        for (auto& operations : m_data->m_operations) {
+            tokens.emplace_back(operations);
+        }
+
         int last_label = -1;
         while (!m_data->m_cancelled) {
             operation_ptr op;
@@ -211,7 +221,7 @@ public:
                     }
 
                     auto& ops_prio = m_data->m_operations[label];
-                    ops_prio.try_dequeue(op);
+                    ops_prio.try_dequeue(tokens[label], op);
                     if (op) {
                         break;
                     }
-- 
2.43.0


From 5d87d453aed8c88413929e94043f9ea37e0f73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 28/39] fix: support sockets beyond FD_SETSIZE in socket
 notifiers

FD_SET on a single fd_set writes beyond the set for sockets of
FD_SETSIZE (1024) and above, which corrupted the stack of the thread
monitoring the socket or terminated the process.
---
 src/naive/naive_socket_notifier.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 334bf06..3c62a53 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -37,6 +37,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstring>
+#include <vector>
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
@@ -115,14 +116,23 @@ public:
                     timeout.tv_usec = 0;
 
                     int nfds = static_cast<int>(socket) + 1;
-                    fd_set fds;
-                    memset(&fds, 0, sizeof(fds));
-                    FD_SET(static_cast<int>(socket), &fds);
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
+                    std::vector<fd_set> fds(1);
+                    FD_SET(static_cast<int>(socket), fds.data());
+#else
+                    // a single fd_set has room for sockets below FD_SETSIZE
+                    // only, use as many of them in a row as are needed
+                    std::vector<fd_set> fds(1 + nfds / FD_SETSIZE);
+                    FD_SET(static_cast<int>(socket) % FD_SETSIZE,
+                           &fds[static_cast<int>(socket) / FD_SETSIZE]);
+#endif
 
                     if (notifier_type::READ == type) {
-                        res = select(nfds, &fds, nullptr, nullptr, &timeout);
+                        res =
+                          select(nfds, fds.data(), nullptr, nullptr, &timeout);
                     } else {
-                        res = select(nfds, nullptr, &fds, nullptr, &timeout);
+                        res =
+                          select(nfds, nullptr, fds.data(), nullptr, &timeout);
                     }
                 }
 
-- 
2.43.0


From d3124cd4b6719fb00a2eb4b76ea17589bccc7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 29/39] fix: keep the threads of a pool if one cannot be
 created

Since the slot of a thread is reserved before it is created, each
failure to create one took a slot away for good, until the pool did not
create any thread anymore. Compensating for a blocked thread or running
an operation does not need the additional thread either as long as there
is another one, so only fail if there is none.
---
 src/naive/naive_threadpool.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 65bb579..9c6d9c5 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -25,6 +25,7 @@
 #include "naive_threadpool.h"
 #include "naive_operation_queue_manager.h"
 
+#include <system_error>
 #include <vector>
 
 __XDISPATCH_BEGIN_NAMESPACE
@@ -353,7 +354,20 @@ threadpool::schedule()
     } while (!m_data->m_active_threads.compare_exchange_strong(
       active_threads, active_threads + 1, std::memory_order_acq_rel));
 
-    auto thread = std::make_shared<worker>(m_data);
+    std::shared_ptr<worker> thread;
+    try {
+        thread = std::make_shared<worker>(m_data);
+    } catch (const std::system_error& e) {
+        XDISPATCH_WARNING() << "threadpool: Cannot create another thread: "
+                            << e.what();
+        // give the slot back so that the next operation can try again, until
+        // then the operations are left to the threads there are
+        if (1 == m_data->m_active_threads.fetch_sub(
+                   1, std::memory_order_acq_rel)) {
+            throw;
+        }
+        return;
+    }
     operation_queue_manager::instance().attach(thread);
 
     XDISPATCH_TP_TRACE(this, active_threads + 1, 0)
-- 
2.43.0


From baadafea77aca04abc709f2c8938fdbebf1a71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 30/39] fix: keep the queues usable while the process is
 exiting

The main queue, the global queues and the backends were destroyed together
with the other static objects while the threads of the pool, and static
destructors running later on, were still using them.
---
 include/xdispatch/impl/ibackend.h |  5 ++--
 src/backend.cpp                   | 39 +++++++++++++++++--------------
 src/naive/naive_serial_queue.cpp  | 17 ++++++++------
 3 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/include/xdispatch/impl/ibackend.h b/include/xdispatch/impl/ibackend.h
index 429cb0c..3f1f345 100644
--- a/include/xdispatch/impl/ibackend.h
+++ b/include/xdispatch/impl/ibackend.h
@@ -89,8 +89,9 @@ __XDISPATCH_END_NAMESPACE
     extern "C" XDISPATCH_EXPORT xdispatch::ibackend*                           \
       type##_backend_get_static_instance_impl()                                \
     {                                                                          \
-        static class _instance;                                                \
-        return &_instance;                                                     \
+        /* never destroyed, in use while the process is exiting */             \
+        static auto* s_instance = new class;                                   \
+        return s_instance;                                                     \
     }
 
 /** Helper macro to declare a backend entry point */
diff --git a/src/backend.cpp b/src/backend.cpp
index b3ff780..03f3b86 100644
--- a/src/backend.cpp
+++ b/src/backend.cpp
@@ -114,48 +114,51 @@ platform_backend()
 #endif
 }
 
+// The instances below are never destroyed: the queues remain in use by other
+// threads and by static destructors while the process is exiting
+
 queue
 main_queue()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_main_queue(k_label_main);
-    return queue(k_label_main, s_instance);
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_main_queue(k_label_main));
+    return queue(k_label_main, *s_instance);
 }
 
 static queue
 global_queue_USER_INTERACTIVE()
 {
-    static iqueue_impl_ptr s_instance =
+    static auto* s_instance = new iqueue_impl_ptr(
       platform_backend().create_parallel_queue(
-        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE);
-    return queue(k_label_global_INTERACTIVE, s_instance);
+        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE));
+    return queue(k_label_global_INTERACTIVE, *s_instance);
 }
 
 static queue
 global_queue_USER_INITIATED()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_INITIATED,
-                                               queue_priority::USER_INITIATED);
-    return queue(k_label_global_INITIATED, s_instance);
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_parallel_queue(
+        k_label_global_INITIATED, queue_priority::USER_INITIATED));
+    return queue(k_label_global_INITIATED, *s_instance);
 }
 
 static queue
 global_queue_UTILITY()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_UTILITY,
-                                               queue_priority::UTILITY);
-    return queue(k_label_global_UTILITY, s_instance);
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_parallel_queue(
+        k_label_global_UTILITY, queue_priority::UTILITY));
+    return queue(k_label_global_UTILITY, *s_instance);
 }
 
 static queue
 global_queue_BACKGROUND()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_BACKGROUND,
-                                               queue_priority::BACKGROUND);
-    return queue(k_label_global_BACKGROUND, s_instance);
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_parallel_queue(
+        k_label_global_BACKGROUND, queue_priority::BACKGROUND));
+    return queue(k_label_global_BACKGROUND, *s_instance);
 }
 
 queue
diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index 0ebedbd..370ec33 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -119,18 +119,21 @@ backend::create_serial_queue(const std::string& label,
 static std::shared_ptr<manual_thread>
 main_thread()
 {
-    static std::shared_ptr<manual_thread> s_thread =
-      std::make_shared<manual_thread>(k_label_main,
-                                      queue_priority::USER_INTERACTIVE);
-    return s_thread;
+    // never destroyed, the thread remains in use while the process is exiting
+    static auto* s_thread =
+      new std::shared_ptr<manual_thread>(std::make_shared<manual_thread>(
+        k_label_main, queue_priority::USER_INTERACTIVE));
+    return *s_thread;
 }
 
 iqueue_impl_ptr
 backend::create_main_queue(const std::string& label, backend_type backend)
 {
-    static iqueue_impl_ptr s_queue = std::make_shared<serial_queue_impl>(
-      main_thread(), label, queue_priority::USER_INTERACTIVE, backend);
-    return s_queue;
+    // never destroyed, the queue remains in use while the process is exiting
+    static auto* s_queue =
+      new iqueue_impl_ptr(std::make_shared<serial_queue_impl>(
+        main_thread(), label, queue_priority::USER_INTERACTIVE, backend));
+    return *s_queue;
 }
 
 void
-- 
2.43.0


From 6d5f6ebf2453eb9f3d70f21a3f0fac95676b2888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 31/39] fix: let serial queues try again to get a thread

If no thread could be created for the first operation of a serial queue, the
queue waited for its notification forever although operations were added to
it and threads could be created again later on.
---
 src/naive/naive_operation_queue.cpp | 15 ++++++++++++++-
 src/naive/naive_operation_queue.h   |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_operation_queue.cpp b/src/naive/naive_operation_queue.cpp
index 5709298..3916bbb 100644
--- a/src/naive/naive_operation_queue.cpp
+++ b/src/naive/naive_operation_queue.cpp
@@ -46,6 +46,7 @@ operation_queue::operation_queue(const ithreadpool_ptr& threadpool,
   , m_CS()
   , m_active_drain(false)
   , m_is_attached(false)
+  , m_notify_failed(false)
   , m_notify_operation(make_operation(this, &operation_queue::drain))
   , m_threadpool(threadpool)
 {}
@@ -178,7 +179,14 @@ operation_queue::async_unsafe(operation_ptr&& job)
     const bool notify = m_jobs.empty();
     m_jobs.push_back(std::move(job));
     if (notify && m_is_attached) {
+        m_notify_failed = true;
         notify_unsafe();
+        m_notify_failed = false;
+    } else if (m_notify_failed) {
+        // there was no thread when notifying and none could be created. The
+        // notification is still pending, have the threadpool try again
+        m_threadpool->execute(make_operation([] {}), m_priority);
+        m_notify_failed = false;
     }
 }
 
@@ -223,7 +231,12 @@ operation_queue::detach()
         // manager and hence release the operation_queue
         auto detach_op = make_operation(
           [this] { operation_queue_manager::instance().detach(this); });
-        async_unsafe(std::move(detach_op));
+        try {
+            async_unsafe(std::move(detach_op));
+        } catch (const std::system_error& e) {
+            // still no thread, the operation remains queued until there is one
+            XDISPATCH_Q_WARNING("cannot notify") << e.what();
+        }
     }
 
     // prevent any further notifications to be made for
diff --git a/src/naive/naive_operation_queue.h b/src/naive/naive_operation_queue.h
index 6365092..0655997 100644
--- a/src/naive/naive_operation_queue.h
+++ b/src/naive/naive_operation_queue.h
@@ -107,6 +107,7 @@ private:
     std::mutex m_CS;
     bool m_active_drain;
     bool m_is_attached;
+    bool m_notify_failed;
     operation_ptr m_notify_operation;
     ithreadpool_ptr m_threadpool;
 
-- 
2.43.0


From 68cb88cb83440355d612162d9791637f9ffc95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 32/39] fix: let handlers end the process

The calls active on a thread were kept in a thread local container, which is
destroyed before the static objects when a handler ends the process. Cancelling
timers, notifiers or connections from then on accessed memory freed already.
---
 src/cancelable.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 7a2081d..8f2572b 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -23,11 +23,28 @@
 #include "xdispatch_internal.h"
 
 #include <cstdlib>
-#include <set>
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::multiset<cancelable*> current_c;
+// the calls active on this thread, the most recent one first. Needs to stay
+// valid while the thread ends as a call may end the process or be cancelled by
+// the destructors running then, so this is not a container to get destroyed
+struct active_call
+{
+    const cancelable* c;
+    active_call* next;
+};
+static thread_local active_call* current_c = nullptr;
+
+static active_call**
+find_active_call(const cancelable* c)
+{
+    auto** it = &current_c;
+    while (*it && (*it)->c != c) {
+        it = &(*it)->next;
+    }
+    return it;
+}
 
 // the lowest bit of the state is the disabled flag, all
 // others make up the number of active calls
@@ -42,7 +59,7 @@ void
 cancelable::disable()
 {
     const auto previous = m_active.fetch_or(kDisabled);
-    if (current_c.find(this) != current_c.end()) {
+    if (*find_active_call(this)) {
         // recursion
     } else if (previous >= kCall) {
         // tried to disable while still running
@@ -59,14 +76,17 @@ cancelable::enter()
             return false;
         }
     } while (!m_active.compare_exchange_weak(current, current + kCall));
-    current_c.insert(this);
+    current_c = new active_call{ this, current_c };
     return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(current_c.find(this));
+    auto** it = find_active_call(this);
+    auto* call = *it;
+    *it = call->next;
+    delete call;
     if ((kCall | kDisabled) == m_active.fetch_sub(kCall)) {
         // disabled in the meantime and this was the last call
         m_barrier.complete();
-- 
2.43.0


From 5241af6ebda2eaa4d51d7ec5608f9c1d1cb54389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:08 +0000
Subject: [PATCH 33/39] fix: keep the limit of threads within its range

With XDISPATCH2_THREAD_COUNT set to 2^30 or more the limit became negative and
nothing was executed at all.
---
 src/naive/naive_threadpool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 9c6d9c5..ae52090 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -25,6 +25,8 @@
 #include "naive_threadpool.h"
 #include "naive_operation_queue_manager.h"
 
+#include <algorithm>
+#include <limits>
 #include <system_error>
 #include <vector>
 
@@ -264,8 +266,11 @@ threadpool::threadpool()
 {
     // we are overcommitting by default so that it becomes less likely
     // that operations get starved due to threads blocking on resources
-    m_data->m_max_threads =
-      static_cast<int>(2 * thread_utils::system_thread_count());
+    // the count may have been forced to any value and the limit gets increased
+    // further while threads are blocked, so keep it within its range
+    constexpr size_t kMaxThreads = std::numeric_limits<int>::max() / 2;
+    m_data->m_max_threads = static_cast<int>(
+      std::min(2 * thread_utils::system_thread_count(), kMaxThreads));
     XDISPATCH_TRACE() << "threadpool with " << m_data->m_max_threads
                       << " system threads";
 }
-- 
2.43.0


From 5d9a78b4d16a06efcef8d55334c4fdabc99e2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 34/39] fix: destroy operations of a waitable queue without
 holding its lock

What an operation captured may use the queue when being destroyed, this
was a deadlock.
---
 src/waitable_queue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index bbf5576..0d70856 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,11 +61,14 @@ public:
         m_active = true;
         // try to pop and execute one operation
         if (!m_operations.empty()) {
-            auto op = m_operations.front();
+            auto op = std::move(m_operations.front());
             m_operations.pop_front();
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // not holding the lock as destroying the operation
+            // may use the queue
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From 7fe9f5eee4762f2db4eff4e9189450a40d914b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 35/39] fix: destroy handlers of timers and notifiers without
 holding a lock

What a replaced handler captured may use the timer or notifier when being
destroyed, this was a deadlock.
---
 src/naive/naive_socket_notifier.cpp | 11 +++++++++--
 src/naive/naive_timer.cpp           |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 3c62a53..47db81e 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -68,8 +68,11 @@ public:
 
     void handler(const socket_notifier_operation_ptr& op) final
     {
+        // released without holding the lock as destroying
+        // the previous handler may use the notifier
+        socket_notifier_operation_ptr handler = op;
         std::lock_guard<std::mutex> lock(m_CS);
-        m_handler = op;
+        m_handler.swap(handler);
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
@@ -176,7 +179,7 @@ public:
                     XDISPATCH_TRACE() << "socket_notifier: select(" << socket
                                       << ") returned " << res;
 
-                    const auto handler = this_ptr->m_handler;
+                    auto handler = this_ptr->m_handler;
                     const auto queue = this_ptr->m_queue;
                     auto& handler_cancelable = this_ptr->m_handler_cancelable;
 
@@ -199,6 +202,10 @@ public:
                       }));
                     barrier.wait();
                     ++this_ptr->m_rounds;
+                    round.unlock();
+                    // not holding a lock as it may have been replaced
+                    // and destroying it may use the notifier
+                    handler.reset();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
                                         << ") failed: " << strerror(errno);
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index f376f79..abaf84b 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -66,8 +66,11 @@ public:
 
     void handler(const operation_ptr& op) final
     {
+        // released without holding the lock as destroying
+        // the previous handler may use the timer
+        operation_ptr handler = op;
         std::lock_guard<std::mutex> lock(m_CS);
-        m_handler = op;
+        m_handler.swap(handler);
     }
 
     void target_queue(const iqueue_impl_ptr& q) final
-- 
2.43.0


From 90ce6f2089a090b1b34acf9f4a1ee2f08c3864fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 36/39] fix: destroy handlers of signals without holding a lock

What a handler captured may use the signal or the connection manager when
being destroyed, on its thread or by waiting for another one. This was a
deadlock if the handler got disconnected while the signal was emitted or
the manager looked at its connections.
---
 include/xdispatch/signals.h | 9 ++++++---
 src/signals.cpp             | 9 +++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index fb1690c..59cf5a0 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -94,6 +94,7 @@ protected:
 private:
     friend class signal_p;
     friend class scoped_connection;
+    friend class connection_manager;
 
     std::weak_ptr<void> m_id;
 };
@@ -412,10 +413,12 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
+        // synchronous handlers may connect or disconnect others, released
+        // without holding the lock as destroying handlers may use the signal
+        std::vector<connection_handler_ptr> handlers;
 
-        // synchronous handlers may connect or disconnect others
-        const auto handlers = m_connections->m_handlers;
+        std::lock_guard<std::recursive_mutex> lock(m_connections->m_CS);
+        handlers = m_connections->m_handlers;
         for (const connection_handler_ptr& handler : handlers) {
             const auto queued = handler->m_queued;
             auto pending = queued->m_pending++;
diff --git a/src/signals.cpp b/src/signals.cpp
index e2fdfd5..d9c66b8 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -51,8 +51,16 @@ connection_manager::reset(
     // not disconnecting with the lock held as this will wait
     // for active handlers which may use the manager themselves
     std::vector<connection> connections;
+    // nor destroying a handler, somebody else may be disconnecting them
+    std::vector<std::shared_ptr<void>> handlers;
+    const auto keep_handlers = [&] {
+        for (const auto& sc : m_connections) {
+            handlers.push_back(sc.m_id.lock());
+        }
+    };
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        keep_handlers();
         std::copy_if(m_connections.begin(),
                      m_connections.end(),
                      std::back_inserter(connections),
@@ -67,6 +75,7 @@ connection_manager::reset(
     std::vector<scoped_connection> done;
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        keep_handlers();
         const auto last = std::stable_partition(
           m_connections.begin(),
           m_connections.end(),
-- 
2.43.0


From ae04b3c01f51ebb6911dfea898340e7d680cce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 37/39] fix: keep executing a queue after an exception was
 caught

An exception may be caught by the caller of exec() or a user provided
thread pool. The operations following on the same serial queue were never
executed then, and those taken by exec() got lost.
---
 src/naive/naive_manual_thread.cpp   | 17 ++++++++++++++---
 src/naive/naive_manual_thread.h     |  4 ++--
 src/naive/naive_operation_queue.cpp | 27 ++++++++++++++++++---------
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/naive/naive_manual_thread.cpp b/src/naive/naive_manual_thread.cpp
index 4bf5778..34e9d36 100644
--- a/src/naive/naive_manual_thread.cpp
+++ b/src/naive/naive_manual_thread.cpp
@@ -57,7 +57,7 @@ manual_thread::run()
     thread_utils::set_current_thread_name(m_name);
     thread_utils::set_current_thread_priority(m_priority);
     while (!m_cancelled) {
-        std::vector<operation_ptr> active_ops;
+        std::deque<operation_ptr> active_ops;
         {
             std::unique_lock<std::mutex> guard(m_CS);
             if (m_queued_ops.empty()) {
@@ -66,8 +66,19 @@ manual_thread::run()
             std::swap(m_queued_ops, active_ops);
         }
 
-        for (const auto& op : active_ops) {
-            execute_operation_on_this_thread(*op);
+        while (!active_ops.empty()) {
+            const auto op = std::move(active_ops.front());
+            active_ops.pop_front();
+            try {
+                execute_operation_on_this_thread(*op);
+            } catch (...) {
+                // may be caught by the owner of the thread, keep
+                // the remaining operations for when it returns
+                std::lock_guard<std::mutex> guard(m_CS);
+                m_queued_ops.insert(
+                  m_queued_ops.begin(), active_ops.begin(), active_ops.end());
+                throw;
+            }
         }
     }
 
diff --git a/src/naive/naive_manual_thread.h b/src/naive/naive_manual_thread.h
index 07270d3..d568a4c 100644
--- a/src/naive/naive_manual_thread.h
+++ b/src/naive/naive_manual_thread.h
@@ -25,7 +25,7 @@
 #include <thread>
 #include <mutex>
 #include <condition_variable>
-#include <vector>
+#include <deque>
 
 #include "naive_backend_internal.h"
 
@@ -82,7 +82,7 @@ private:
     const queue_priority m_priority;
     std::mutex m_CS;
     std::condition_variable m_cond;
-    std::vector<operation_ptr> m_queued_ops;
+    std::deque<operation_ptr> m_queued_ops;
     bool m_cancelled;
 };
 
diff --git a/src/naive/naive_operation_queue.cpp b/src/naive/naive_operation_queue.cpp
index 3916bbb..8a9023f 100644
--- a/src/naive/naive_operation_queue.cpp
+++ b/src/naive/naive_operation_queue.cpp
@@ -138,17 +138,26 @@ operation_queue::drain()
     //    added quickly
     static constexpr size_t kMaxOpsPerDrain = 10;
     auto remaining = std::min(m_jobs.size(), kMaxOpsPerDrain);
-    while (0 != remaining) {
-        operation_ptr job;
-        deferred_pop pop(m_jobs, remaining);
-        std::swap(m_jobs.front(), job);
-        {
-            inverse_lock_guard<std::mutex> unlock(m_CS);
-            if (job) {
-                process_job(*job);
-                job.reset();
+    try {
+        while (0 != remaining) {
+            operation_ptr job;
+            deferred_pop pop(m_jobs, remaining);
+            std::swap(m_jobs.front(), job);
+            {
+                inverse_lock_guard<std::mutex> unlock(m_CS);
+                const operation_ptr active_job = std::move(job);
+                if (active_job) {
+                    process_job(*active_job);
+                }
             }
         }
+    } catch (...) {
+        // may be caught by the owner of our thread, ensure
+        // the remaining jobs will still be executed
+        if (!m_jobs.empty()) {
+            notify_unsafe();
+        }
+        throw;
     }
     if (!m_jobs.empty()) {
         // not all jobs have been drained but to ensure fairness
-- 
2.43.0


From eb5006fa057bfa229d6aee4230fe252f5403b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 38/39] fix: operations ending by an exception are done as well

Waiting for a group or apply() never returned and timers and notifiers
stopped when the exception was caught by the caller of exec() or a user
provided thread pool.
---
 src/naive/naive_operations.cpp      | 63 +++++++++++++++++++++--------
 src/naive/naive_operations.h        | 19 +++++++++
 src/naive/naive_socket_notifier.cpp | 17 ++++----
 src/naive/naive_timer.cpp           | 15 ++++---
 4 files changed, 80 insertions(+), 34 deletions(-)

diff --git a/src/naive/naive_operations.cpp b/src/naive/naive_operations.cpp
index 342babf..54d79aa 100644
--- a/src/naive/naive_operations.cpp
+++ b/src/naive/naive_operations.cpp
@@ -30,6 +30,48 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
+// the resource is consumed when leaving the scope, no matter if
+// the operation returned or threw an exception
+class consume_scope
+{
+public:
+    explicit consume_scope(const consumable_ptr& consumable)
+      : m_consumable(consumable)
+    {}
+    consume_scope(const consume_scope&) = delete;
+
+    ~consume_scope()
+    {
+        if (m_consumable) {
+            m_consumable->consume_resource();
+        }
+    }
+
+private:
+    const consumable_ptr& m_consumable;
+};
+
+// same for a timer which is to be released
+class release_scope
+{
+public:
+    explicit release_scope(itimer_impl_ptr& timer)
+      : m_timer(timer)
+    {}
+    release_scope(const release_scope&) = delete;
+
+    ~release_scope()
+    {
+        if (m_timer) {
+            m_timer->cancel();
+            m_timer.reset();
+        }
+    }
+
+private:
+    itimer_impl_ptr& m_timer;
+};
+
 apply_operation::apply_operation(size_t index,
                                  const iteration_operation_ptr& op,
                                  const consumable_ptr& consumable)
@@ -41,11 +83,8 @@ apply_operation::apply_operation(size_t index,
 void
 apply_operation::operator()()
 {
+    consume_scope consume(m_consumable);
     execute_operation_on_this_thread(*m_op, m_index);
-
-    if (m_consumable) {
-        m_consumable->consume_resource();
-    }
 }
 
 void
@@ -80,16 +119,9 @@ delayed_operation::delayed_operation(itimer_impl_ptr&& timer,
 void
 delayed_operation::operator()()
 {
+    release_scope release(m_timer);
+    consume_scope consume(m_consumable);
     execute_operation_on_this_thread(*m_op);
-
-    if (m_consumable) {
-        m_consumable->consume_resource();
-    }
-
-    if (m_timer) {
-        m_timer->cancel();
-        m_timer.reset();
-    }
 }
 
 consuming_operation::consuming_operation(const operation_ptr& op,
@@ -101,11 +133,8 @@ consuming_operation::consuming_operation(const operation_ptr& op,
 void
 consuming_operation::operator()()
 {
+    consume_scope consume(m_consumable);
     execute_operation_on_this_thread(*m_op);
-
-    if (m_consumable) {
-        m_consumable->consume_resource();
-    }
 }
 
 } // namespace naive
diff --git a/src/naive/naive_operations.h b/src/naive/naive_operations.h
index 676ff3f..3d8bb7f 100644
--- a/src/naive/naive_operations.h
+++ b/src/naive/naive_operations.h
@@ -21,6 +21,7 @@
 
 #include "xdispatch/dispatch.h"
 #include "naive_consumable.h"
+#include "xdispatch/impl/lightweight_barrier.h"
 
 #ifndef XDISPATCH_NAIVE_OPERATIONS_H_
     #define XDISPATCH_NAIVE_OPERATIONS_H_
@@ -28,6 +29,24 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
+/**
+    @brief Helper to complete a barrier when leaving a scope, no matter if
+           by returning or by an exception
+ */
+class complete_scope
+{
+public:
+    explicit complete_scope(lightweight_barrier& barrier)
+      : m_barrier(barrier)
+    {}
+    complete_scope(const complete_scope&) = delete;
+
+    ~complete_scope() { m_barrier.complete(); }
+
+private:
+    lightweight_barrier& m_barrier;
+};
+
 /**
     @brief An operation grouping an iteration operation and
            invoking iterator together in a single call
diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 47db81e..c99f8ec 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -23,6 +23,7 @@
 #include "xdispatch/impl/iqueue_impl.h"
 #include "xdispatch/impl/cancelable.h"
 
+#include "naive_operations.h"
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
 #include "../trace_utils.h"
@@ -189,16 +190,14 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          {
-                              // needs to end before completing the barrier, the
-                              // notifier may be gone once that one completed
-                              cancelable_scope scope(handler_cancelable);
-                              if (scope) {
-                                  execute_operation_on_this_thread(
-                                    *handler, socket, type);
-                              }
+                          complete_scope complete(barrier);
+                          // needs to end before completing the barrier, the
+                          // notifier may be gone once that one completed
+                          cancelable_scope scope(handler_cancelable);
+                          if (scope) {
+                              execute_operation_on_this_thread(
+                                *handler, socket, type);
                           }
-                          barrier.complete();
                       }));
                     barrier.wait();
                     ++this_ptr->m_rounds;
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index abaf84b..297e017 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -23,6 +23,7 @@
 #include "xdispatch/impl/cancelable.h"
 #include "xdispatch/impl/iqueue_impl.h"
 
+#include "naive_operations.h"
 #include "naive_threadpool.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
@@ -119,15 +120,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    {
-                        // needs to end before completing the barrier, the
-                        // timer may be gone as soon as that one completed
-                        cancelable_scope scope(cancelable);
-                        if (scope) {
-                            execute_operation_on_this_thread(*handler);
-                        }
+                    complete_scope complete(barrier);
+                    // needs to end before completing the barrier, the
+                    // timer may be gone as soon as that one completed
+                    cancelable_scope scope(cancelable);
+                    if (scope) {
+                        execute_operation_on_this_thread(*handler);
                     }
-                    barrier.complete();
                 }));
                 barrier.wait();
                 round.unlock();
-- 
2.43.0


From 0064af3602b3bbf63ccc0db0cde3306867f15cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 39/39] fix: keep a waitable queue usable after an exception

An exception leaving wait_for_one(), wait_for_all() or apply() left the
queue marked as active and blocked everybody else forever. apply() does not
leave iterations behind anymore.
---
 src/waitable_queue.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 0d70856..fba059f 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <list>
 #include <condition_variable>
+#include <exception>
 #include <mutex>
 
 #include "xdispatch_internal.h"
@@ -59,13 +60,20 @@ public:
         }
         // we are the active worker now
         m_active = true;
+        // exceptions may be caught by whoever waits for the operation
+        // or the owner of the thread, the queue needs to stay usable
+        std::exception_ptr error;
         // try to pop and execute one operation
         if (!m_operations.empty()) {
             auto op = std::move(m_operations.front());
             m_operations.pop_front();
 
             lock.unlock();
-            xdispatch::execute_operation_on_this_thread(*op);
+            try {
+                xdispatch::execute_operation_on_this_thread(*op);
+            } catch (...) {
+                error = std::current_exception();
+            }
             // not holding the lock as destroying the operation
             // may use the queue
             op.reset();
@@ -75,6 +83,9 @@ public:
         // notify we are no longer active
         m_active = false;
         m_cond.notify_all();
+        if (error) {
+            std::rethrow_exception(error);
+        }
     }
 
     void wait_for_one()
@@ -175,7 +186,20 @@ public:
         for (size_t i = 0; i < times; ++i) {
             async(std::make_shared<naive::apply_operation>(i, op));
         }
-        m_worker->wait_for_all();
+        // do not return before all iterations were executed,
+        // not even by an exception of one of them
+        std::exception_ptr error;
+        do {
+            try {
+                m_worker->wait_for_all();
+                break;
+            } catch (...) {
+                error = std::current_exception();
+            }
+        } while (true);
+        if (error) {
+            std::rethrow_exception(error);
+        }
     }
 
     void after(std::chrono::milliseconds delay,
-- 
2.43.0

