From 2f0926c7c977c60b289a570326c6f664762b1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:46 +0000
Subject: [PATCH 01/32] fix: allow the recursive timed mutex to be instantiated

The timed recursive mutex derives from the recursive mutex, which was marked
final, so any use of the class failed to compile.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From e62716bfe5cef79ef06f08de415d570104a7b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:43 +0000
Subject: [PATCH 02/32] fix: hand a released shared mutex to the waiting
 readers only

remove_if does not keep the removed elements, so with readers and writers
queued together a writer could be admitted beside a reader and a reader
could be dropped from the queue.
---
 source/cocpp/sync/co_shared_mutex.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..6147f77 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,9 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    // remove_if leaves unspecified elements behind the new end, stable_partition keeps them
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 94091ed9155101709ca415adb329300f0eecc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:23 +0000
Subject: [PATCH 03/32] fix: make condition variable waits report their own
 outcome

The timeout mark was shared by all waits on an object and never reset, so
one timeout made later waits fail. Predicate waits blocked although the
predicate was true and timed ones ignored it. A timed wait took the user
mutex with the scheduling lock held, which blocked the thread that had to
release it. The timer was started before the waiter was registered, and a
late timer could hit a later wait.
---
 include/cocpp/sync/co_condition_variable.h | 91 ++++++++++------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..1050f5e 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -11,6 +11,7 @@ _Pragma("once");
 
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -28,7 +29,6 @@ class co_condition_variable_impl final : private co_noncopyable
 private:
     mutable co_spinlock cv_lock__;
     std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
 
 public:
     template <typename Lock>
@@ -62,45 +62,51 @@ void co_condition_variable_impl::wait(Lock &lock)
         lock.unlock();
         ctx->enter_wait_resource_state(this);
     }
+    CoEnablePreempt();
     CoYield();
+    CoDisablePreempt();
     lock.lock();
 }
 
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time)
 {
-    CoScheduleGuard();
+    CoPreemptGuard();
     auto ctx = CoCurrentCtx();
 
-    auto timer = co_timer::create([this, ctx] {
+    // Belongs to this wait alone: other waits must not see its timeout, and the timer may run after the wait has ended
+    struct wait_state
+    {
+        co_spinlock mu;
+        bool ended {false};
+        bool timeout {false};
+    };
+    auto state = std::make_shared<wait_state>();
+
+    auto timer = co_timer::create([this, ctx, state] {
+        std::scoped_lock state_lk(state->mu);
+        if (state->ended)
+        {
+            return;
+        }
         std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
+        if (waiters__.remove(ctx) == 0) // notified before the timeout
+        {
+            return;
+        }
+        state->timeout = true;
         ctx->leave_wait_resource_state(this);
     },
                                   abs_time);
-    timer->start();
     {
         std::scoped_lock lk(cv_lock__);
 
@@ -108,12 +114,17 @@ bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_
         lock.unlock();
         ctx->enter_wait_resource_state(this);
     }
-    CoUnlockSchedule();
+    timer->start(); // not before the registration, the timer may expire at once
+    CoEnablePreempt();
     CoYield();
-    CoLockSchedule();
-    lock.lock();
+    CoDisablePreempt();
     timer->stop();
-    return !timeout__;
+    {
+        std::scoped_lock lk(state->mu);
+        state->ended = true;
+    }
+    lock.lock();
+    return !state->timeout;
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -126,34 +137,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
-- 
2.43.0


From bc3d4566295fa10f7d855bf075d0b4b393a6177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:56 +0000
Subject: [PATCH 04/32] fix: keep timers that have the same deadline

The queue is a set ordered by deadline only, so a second timer with the same
deadline was not inserted and never fired.
---
 source/cocpp/core/co_timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..a94c4bb 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -135,7 +135,11 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    if (lhs->expire_time() != rhs->expire_time())
+    {
+        return lhs->expire_time() < rhs->expire_time();
+    }
+    return lhs->get_handle() < rhs->get_handle();
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From 7c5d389b8fda50e0e66f560b5c49775933809464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:56 +0000
Subject: [PATCH 05/32] fix: remove the lock order cycles between timers and
 the timer queue

A timer was locked before the queue by start and stop, and after it by the
ordering of the queue and by the timer thread, so threads using timers could
deadlock. The timer thread also held the queue while it took the locks of
the environments, and callbacks ran with their timer locked. The timer
thread dereferenced an empty queue after a spurious wake-up, and a shutdown
could be missed by it because the flag was set without its lock.
---
 include/cocpp/core/co_manager.h  |  3 ++-
 include/cocpp/core/co_timer.h    |  6 +++++-
 source/cocpp/core/co_manager.cpp | 27 ++++++++++++---------------
 source/cocpp/core/co_timer.cpp   | 31 +++++++++++++++++++++++++------
 4 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/include/cocpp/core/co_manager.h b/include/cocpp/core/co_manager.h
index 63118bb..7aa0ffd 100644
--- a/include/cocpp/core/co_manager.h
+++ b/include/cocpp/core/co_manager.h
@@ -6,6 +6,7 @@ _Pragma("once");
 #include "cocpp/utils/co_noncopyable.h"
 #include "cocpp/utils/co_singleton.h"
 
+#include <atomic>
 #include <functional>
 #include <future>
 #include <list>
@@ -38,7 +39,7 @@ private:
         .max_env_count = std::thread::hardware_concurrency() * 2};
 
     // Other threads can access this data.
-    bool clean_up__ {false};
+    std::atomic<bool> clean_up__ {false};
 
     mutable std::recursive_mutex mu_timer_duration__;
     std::chrono::steady_clock::duration timer_duration__ {10ms};
diff --git a/include/cocpp/core/co_timer.h b/include/cocpp/core/co_timer.h
index 7dd569c..8125966 100644
--- a/include/cocpp/core/co_timer.h
+++ b/include/cocpp/core/co_timer.h
@@ -4,6 +4,7 @@ _Pragma("once");
 #include "cocpp/core/co_type.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <memory>
@@ -39,13 +40,14 @@ private:
     const co_expire_type expire_type__;
     const co_timer_type timer_type__;
     const unsigned long long interval__;
-    std::chrono::steady_clock::time_point expire_time__;
+    std::atomic<std::chrono::steady_clock::time_point> expire_time__;
     co_timer_status status__;
     mutable std::recursive_mutex mutex__;
 
     void insert_to_timer_queue__();
     void remove_from_timer_queue__();
     void update_timeout_time__();
+    bool take_expired__();
 
 public:
     co_timer(const std::function<void()> &func, co_expire_type type, unsigned long long interval_ms);
@@ -69,6 +71,8 @@ public:
     create(const std::function<void()> &func, std::chrono::steady_clock::time_point expire_time);
 
     std::string timer_info();
+
+    friend class co_manager;
 };
 
 bool operator==(const std::shared_ptr<co_timer> &lhs, const std::shared_ptr<co_timer> &rhs);
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..77f30f7 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -191,6 +191,8 @@ void co_manager::set_clean_up__()
         env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
     }
     env_set__.cv_expired_env.notify_one();
+    // The timer thread checks the flag and goes to sleep under this lock
+    scoped_lock timer_lock(mu_timer_queue__);
     cv_timer_queue__.notify_one();
 }
 
@@ -355,27 +357,22 @@ void co_manager::timer_routine__()
         if (timer_queue__.empty())
         {
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue;
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
-            if (front->expire_type() == co_expire_type::once)
-            {
-                front->stop();
-            }
-            else
+            // Timers and environments are locked before the queue, never after it
+            lck.unlock();
+            if (front->take_expired__())
             {
-                front->reset();
+                create_and_schedule_ctx(
+                    {}, [front](co_any &) {
+                        front->run();
+                    },
+                    false);
             }
+            lck.lock();
         }
         else
         {
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index a94c4bb..b116b5b 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -102,9 +102,9 @@ void co_timer::remove_from_timer_queue__()
     co_manager::instance()->remove_timer_from_queue__(shared_from_this());
 }
 
+// The timer queue is ordered by this value, so it is read without the lock of the timer
 chrono::steady_clock::time_point co_timer::expire_time() const
 {
-    scoped_lock lock(mutex__);
     return expire_time__;
 }
 
@@ -115,17 +115,36 @@ co_timer_type co_timer::timer_type() const
 
 bool co_timer::is_expired() const
 {
-    scoped_lock lock(mutex__);
-    return chrono::steady_clock::now() >= expire_time__;
+    return chrono::steady_clock::now() >= expire_time();
 }
 
 void co_timer::run() const
+{
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        callback = callback__;
+    }
+    // The callback may take locks under which others use this timer
+    if (callback)
+    {
+        callback();
+    }
+}
+
+bool co_timer::take_expired__()
 {
     scoped_lock lock(mutex__);
-    if (callback__)
+    if (status__ == co_timer_status::stopped || !is_expired())
+    {
+        return false;
+    }
+    stop();
+    if (expire_type__ != co_expire_type::once)
     {
-        callback__();
+        start();
     }
+    return true;
 }
 
 bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
@@ -170,7 +189,7 @@ string co_timer::timer_info()
     ss << "interval: " << interval__ << endl;
 
     // expire time
-    ss << "expire time: " << expire_time__.time_since_epoch().count() << endl;
+    ss << "expire time: " << expire_time().time_since_epoch().count() << endl;
 
     // status
     ss << "status: " << (status__ == co_timer_status::running ? "running" : "stopped") << endl;
-- 
2.43.0


From 5d2d8a0f10599299f8d68385129c33220d270293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:07 +0000
Subject: [PATCH 06/32] fix: make call-once wait for the function and retry
 after an exception

A second caller returned while the function was still running, and a
function that threw left the flag set so that it never ran again.
---
 include/cocpp/sync/co_call_once.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/cocpp/sync/co_call_once.h b/include/cocpp/sync/co_call_once.h
index 92101d1..1b629fc 100644
--- a/include/cocpp/sync/co_call_once.h
+++ b/include/cocpp/sync/co_call_once.h
@@ -2,9 +2,11 @@ _Pragma("once");
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <atomic>
 #include <functional>
+#include <mutex>
 
 CO_NAMESPACE_BEGIN
 
@@ -12,16 +14,22 @@ class co_once_flag : private co_noncopyable
 {
 public:
     std::atomic<bool> flag__ {false};
+    co_mutex mutex__;
 };
 
 template <class Callable, class... Args>
 void co_call_once(co_once_flag &flag, Callable &&f, Args &&...args)
 {
-    CoPreemptGuard();
-    bool key = false;
-    if (flag.flag__.compare_exchange_strong(key, true))
+    if (flag.flag__)
+    {
+        return;
+    }
+    // Other callers wait here until the function has completed
+    std::scoped_lock lock(flag.mutex__);
+    if (!flag.flag__)
     {
         std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+        flag.flag__ = true;
     }
 }
 
-- 
2.43.0


From d125e46300f62fab5e41ec57c1aaf55c9e8eb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:32 +0000
Subject: [PATCH 07/32] fix: count barrier arrivals when they arrive

Arrivals were counted in wait, so arriving without waiting or dropping out
never completed a phase, and dropping did not lower the following phases. A
token of a completed phase was rejected and a wait did not check its phase
after waking up.
---
 include/cocpp/sync/co_barrier.h  |  5 ++--
 source/cocpp/sync/co_barrier.cpp | 43 ++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..36732ee 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -21,11 +21,12 @@ class co_barrier final : private co_noncopyable
 private:
     std::atomic<std::ptrdiff_t> expected__;
     std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
-    const std::ptrdiff_t max__;
+    std::ptrdiff_t max__;
     co_mutex mutex__;
     co_condition_variable cond__;
 
+    co_arrival_token arrive__(std::ptrdiff_t n);
+
 public:
     explicit co_barrier(std::ptrdiff_t expected);
     co_arrival_token arrive(std::ptrdiff_t n = 1);
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..a665ad8 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,7 +6,6 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
     , max__(expected)
 {
 }
@@ -14,37 +13,37 @@ co_barrier::co_barrier(ptrdiff_t expected)
 co_arrival_token co_barrier::arrive(ptrdiff_t n)
 {
     scoped_lock lock(mutex__);
+    return arrive__(n);
+}
+
+co_arrival_token co_barrier::arrive__(ptrdiff_t n)
+{
     if (expected__ - n < 0)
     {
         throw logic_error("co_barrier::arrive: count < 0");
     }
-    expected__ -= n;
-    return co_arrival_token {
+    co_arrival_token token {
         .generation__ = generation__,
         .barrier__ = this,
         .n__ = n};
+    expected__ -= n;
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__;
+        cond__.notify_all();
+    }
+    return token;
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    if (arrival.generation__ > generation__ || arrival.barrier__ != this)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
+    while (arrival.generation__ == generation__)
     {
         cond__.wait(lock);
     }
@@ -57,7 +56,13 @@ void co_barrier::arrive_and_wait()
 
 void co_barrier::arrive_and_drop()
 {
-    arrive();
+    scoped_lock lock(mutex__);
+    if (expected__ < 1)
+    {
+        throw logic_error("co_barrier::arrive_and_drop: count < 0");
+    }
+    --max__; // applies to the following phases
+    arrive__(1);
 }
 
-CO_NAMESPACE_END
\ No newline at end of file
+CO_NAMESPACE_END
-- 
2.43.0


From 72e0e0c2491366f513c5a7ff7ca81ebdd33a5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:41 +0000
Subject: [PATCH 08/32] fix: let waiting senders of an unbuffered channel go on

A sender that found the slot taken waited for the channel to be closed only,
and taking a value woke a single sender although they wait for different
conditions.
---
 include/cocpp/event/co_chan.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..f75ddd7 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -211,7 +211,7 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     if (chan_base::data__->size() == static_cast<size_t>(max_size))
     {
         chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
+            return *chan_base::closed__ || chan_base::data__->empty();
         });
         if (*chan_base::closed__)
         {
@@ -258,7 +258,8 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
-    cv_full__->notify_one();
+    // Senders wait for different conditions: room for a value, or their value being taken
+    cv_full__->notify_all();
     return ret;
 }
 
-- 
2.43.0


From 6c7719625571c24381a3bc0ec7e97a176e816f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:35 +0000
Subject: [PATCH 09/32] fix: close both ends of every pipeline stage

Map, filter, skip and fork did not close their input when their consumer had
gone, so the stages before them ran for ever. A stage whose function threw
never closed its output. A pipeline made from an initializer list read the
list after its lifetime.
---
 include/cocpp/pipeline/co_pipeline.h | 40 +++++++++++-----------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..1a7783d 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -2,6 +2,7 @@ _Pragma("once");
 #include "cocpp/event/co_chan.h"
 #include "cocpp/co/co_co.h"
 #include "cocpp/pipeline/co_pipeline_op.h"
+#include "cocpp/utils/co_defer.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <algorithm>
 #include <cstddef>
@@ -128,6 +129,7 @@ co_pipeline<ItemType>::co_pipeline(const ItemType &begin, const ItemType &end, c
     : channel__(max_chan_size)
 {
     co__ = std::make_shared<co>([ch = channel__, begin, end, inc]() mutable {
+        CoDefer(ch.close());
         for (auto i = begin; i != end; i += inc)
         {
             if (!ch.push(i))
@@ -135,7 +137,6 @@ co_pipeline<ItemType>::co_pipeline(const ItemType &begin, const ItemType &end, c
                 break;
             }
         }
-        ch.close();
     });
     co__->detach();
 }
@@ -156,6 +157,7 @@ co_pipeline<ItemType>::co_pipeline(IterType begin, IterType end, int max_chan_si
     : channel__(max_chan_size)
 {
     co__ = std::make_shared<co>([ch = channel__, begin, end]() mutable {
+        CoDefer(ch.close());
         for (auto i = begin; i != end; ++i)
         {
             if (!ch.push(*i))
@@ -163,7 +165,6 @@ co_pipeline<ItemType>::co_pipeline(IterType begin, IterType end, int max_chan_si
                 break;
             }
         }
-        ch.close();
     });
     co__->detach();
 }
@@ -182,6 +183,7 @@ co_pipeline<ItemType>::co_pipeline(FuncType init_func, int max_chan_size)
     : channel__(max_chan_size)
 {
     co__ = std::make_shared<co>([ch = channel__, init_func]() mutable {
+        CoDefer(ch.close());
         for (;;)
         {
             auto item = init_func();
@@ -194,7 +196,6 @@ co_pipeline<ItemType>::co_pipeline(FuncType init_func, int max_chan_size)
                 break;
             }
         }
-        ch.close();
     });
     co__->detach();
 }
@@ -218,6 +219,7 @@ co_pipeline<ItemType>::co_pipeline(const CollectionType &col, int max_chan_size)
     : channel__(max_chan_size)
 {
     co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+        CoDefer(ch.close());
         for (const auto &t : col)
         {
             if (!ch.push(t))
@@ -225,7 +227,6 @@ co_pipeline<ItemType>::co_pipeline(const CollectionType &col, int max_chan_size)
                 break;
             }
         }
-        ch.close();
     });
     co__->detach();
 }
@@ -234,7 +235,9 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    // The array behind an initializer_list does not outlive this call
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
+        CoDefer(ch.close());
         for (const auto &t : col)
         {
             if (!ch.push(t))
@@ -242,7 +245,6 @@ co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, i
                 break;
             }
         }
-        ch.close();
     });
     co__->detach();
 }
@@ -251,14 +253,7 @@ template <typename ItemType>
 template <typename FuncType>
 requires pipeline::ReturnIsNotVoid<FuncType, ItemType> auto co_pipeline<ItemType>::operator|(FuncType func)
 {
-    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >([ch = channel__, func]() mutable -> std::optional<std::invoke_result_t<FuncType, ItemType> > {
-        auto item = ch.pop();
-        if (!item)
-        {
-            return std::nullopt;
-        }
-        return func(*item);
-    });
+    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >(channel__, pipeline::fork<FuncType>(1, func));
 }
 
 template <typename ItemType>
@@ -267,10 +262,12 @@ requires pipeline::ReturnIsNotVoid<FuncType, OldType>
 co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::fork<FuncType> &fork)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, fork]() mutable {
+        CoDefer(this_ch.close());
         std::vector<std::shared_ptr<co> > co_list(fork.fork_count__);
         for (auto &&c : co_list)
         {
             c = std::make_shared<co>([this_ch, ch, fork]() mutable {
+                CoDefer(ch.close());
                 while (true)
                 {
                     auto item = ch.pop();
@@ -289,7 +286,6 @@ co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::fork<Fun
         {
             c->join();
         }
-        this_ch.close();
     });
     co__->detach();
 }
@@ -300,6 +296,7 @@ requires pipeline::ReturnIsNotVoid<FuncType, std::vector<OldType> >
 co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::group<FuncType> &gp)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, gp]() mutable {
+        CoDefer(this_ch.close(); ch.close());
         for (;;)
         {
             std::vector<OldType> data(gp.group_count__);
@@ -308,14 +305,12 @@ co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::group<Fu
                 auto item = ch.pop();
                 if (!item)
                 {
-                    this_ch.close();
                     return;
                 }
                 data[i] = *item;
             }
             if (!this_ch.push(gp.func__(data)))
             {
-                ch.close();
                 return;
             }
         }
@@ -349,6 +344,7 @@ requires pipeline::FilterFunc<FilterType, ItemType>
 co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::filter<FilterType> &filter)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, filter]() mutable {
+        CoDefer(this_ch.close(); ch.close());
         for (const auto &item : ch)
         {
             if (filter.filter__(item))
@@ -359,8 +355,6 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::filter<
                 }
             }
         }
-
-        this_ch.close();
     });
     co__->detach();
 }
@@ -385,13 +379,13 @@ requires pipeline::ReduceFunc<ReduceType, InitType, ItemType>
 co_pipeline<ItemType>::co_pipeline(co_chan<InitType> ch, const pipeline::reduce<ReduceType, InitType> &reducer)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, reducer]() mutable {
+        CoDefer(this_ch.close(); ch.close());
         auto result = reducer.init__;
         for (const auto &item : ch)
         {
             result = reducer.reducer__(result, item);
         }
         this_ch.push(result);
-        this_ch.close();
     });
     co__->detach();
 }
@@ -412,6 +406,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::take &take)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, take]() mutable {
+        CoDefer(this_ch.close(); ch.close());
         for (size_t index = 0; index < take.take__; ++index)
         {
             auto result = ch.pop();
@@ -427,9 +422,6 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::take &t
                 break;
             }
         }
-
-        this_ch.close();
-        ch.close();
     });
     co__->detach();
 }
@@ -438,6 +430,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::skip &skip)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, skip]() mutable {
+        CoDefer(this_ch.close(); ch.close());
         for (size_t index = 0; index < skip.skip__; ++index)
         {
             auto result = ch.pop();
@@ -453,7 +446,6 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::skip &s
                 break;
             }
         }
-        this_ch.close();
     });
     co__->detach();
 }
-- 
2.43.0


From 19ec8b66a93a9fd1d5ae4eb163e1e5d593f06af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 10/32] fix: retry interrupted reads and writes and blocked
 sendto calls

They returned the temporary error to the caller.
---
 source/cocpp/io/co_io.cpp  |  4 ++--
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..89f1f67 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -53,7 +53,7 @@ int co_io::read(void *buf, size_t count)
         int ret = ::read(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
@@ -75,7 +75,7 @@ int co_io::write(const void *buf, size_t count)
         int ret = ::write(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..b45c760 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -123,7 +123,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From 3b8730c7001ed34728cc177577d151480fdf89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 11/32] fix: pass the argument of fcntl and ioctl on

The argument list object itself was handed to the system call.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 89f1f67..dd3f22b 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 7480595105655088b3e83a32b4a3f8b7eaa5e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 12/32] fix: return the whole offset from lseek

Offsets beyond 2 GiB were cut to an int.
---
 include/cocpp/io/co_io.h  | 2 +-
 source/cocpp/io/co_io.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/io/co_io.h b/include/cocpp/io/co_io.h
index 26c1359..1653fdf 100644
--- a/include/cocpp/io/co_io.h
+++ b/include/cocpp/io/co_io.h
@@ -20,7 +20,7 @@ public:
     virtual int close();
     virtual int read(void *buf, size_t count);
     virtual int write(const void *buf, size_t count);
-    virtual int lseek(off_t offset, int whence);
+    virtual off_t lseek(off_t offset, int whence);
     virtual int fchmod(mode_t mode);
     virtual int fchown(uid_t owner, gid_t group);
     virtual int fcntl(int cmd, ...);
diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index dd3f22b..cfb80b6 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -90,7 +90,7 @@ int co_io::write(const void *buf, size_t count)
     }
 }
 
-int co_io::lseek(off_t offset, int whence)
+off_t co_io::lseek(off_t offset, int whence)
 {
     return ::lseek(fd__, offset, whence);
 }
-- 
2.43.0


From 60d5c380d313c14089993d9fb14b1c0fd138ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 13/32] fix: report the real outcome of a connect

A connection that was established at once was an error unless errno happened
to be EINPROGRESS, a refused connection was a success, and a signal during
the wait was an error.
---
 source/cocpp/io/co_net.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index b45c760..1fda35b 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -59,12 +59,13 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
 
-    if (ret > 0)
+    if (ret == 0)
     {
         return ret;
     }
 
-    if (errno != EINPROGRESS)
+    // An interrupted connect goes on in the background as well
+    if (errno != EINPROGRESS && errno != EINTR)
     {
         CO_O_ERROR("connect error: %s", strerror(errno));
         return -1;
@@ -83,6 +84,11 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 
         if (result < 0)
         {
+            if (errno == EINTR)
+            {
+                CoYield();
+                continue;
+            }
             CO_O_ERROR("select error: %s", strerror(errno));
             return -1;
         }
@@ -95,6 +101,18 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         {
             if (FD_ISSET(fd__, &write_fds))
             {
+                // Writable also means failed
+                int error = 0;
+                socklen_t len = sizeof(error);
+                if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &error, &len) == -1)
+                {
+                    return -1;
+                }
+                if (error != 0)
+                {
+                    errno = error;
+                    return -1;
+                }
                 return 0;
             }
         }
-- 
2.43.0


From ebecff93716c43ed3cb56ddb708384f1840502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 14/32] fix: do not hand out objects whose descriptor could not
 be set up

The descriptor leaked and the object referred to none.
---
 source/cocpp/io/co_file.cpp |  6 +++++-
 source/cocpp/io/co_net.cpp  | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/io/co_file.cpp b/source/cocpp/io/co_file.cpp
index 42d724a..137598f 100644
--- a/source/cocpp/io/co_file.cpp
+++ b/source/cocpp/io/co_file.cpp
@@ -12,7 +12,11 @@ std::optional<co_file> co_file::open(const char *pathname, int flags, mode_t mod
     }
 
     co_file file;
-    file.init_fd(fd);
+    if (file.init_fd(fd) == -1)
+    {
+        ::close(fd);
+        return std::nullopt;
+    }
     return file;
 }
 
diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 1fda35b..150a4b9 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -19,7 +19,11 @@ std::optional<co_net> co_net::socket(int domain, int type, int protocol)
     }
 
     co_net net;
-    net.init_fd(fd);
+    if (net.init_fd(fd) == -1)
+    {
+        ::close(fd);
+        return std::nullopt;
+    }
     return net;
 }
 
@@ -45,7 +49,11 @@ std::optional<co_net> co_net::accept(struct sockaddr *addr, socklen_t *addrlen)
             return std::nullopt;
         }
         co_net net;
-        net.init_fd(fd);
+        if (net.init_fd(fd) == -1)
+        {
+            ::close(fd);
+            return std::nullopt;
+        }
         return net;
     }
 }
-- 
2.43.0


From 73f19661d7aed64f243f7c4d652e25ada9cff570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 15/32] fix: end a whole-buffer read at the end of the stream

It looped for ever.
---
 source/cocpp/io/co_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..9e19b06 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "read error", "end of stream");
+        }
         remain -= ret;
     }
     return co_error();
-- 
2.43.0


From 2bab69bbddfb6cb692ff8d21c95f6c5dab55fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:13 +0000
Subject: [PATCH 16/32] fix: declare the undefined accept of the server class
 pure virtual

It was the key function of the class, so no derived class could be linked.
---
 include/cocpp/io/co_server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/io/co_server.h b/include/cocpp/io/co_server.h
index 4ade569..2f9ab54 100644
--- a/include/cocpp/io/co_server.h
+++ b/include/cocpp/io/co_server.h
@@ -17,7 +17,7 @@ public:
     co_server() = default;
 
     virtual co_error listen(int backlog) = 0;
-    virtual std::tuple<std::shared_ptr<co_client>, co_error> accept();
+    virtual std::tuple<std::shared_ptr<co_client>, co_error> accept() = 0;
     virtual co_error close();
     virtual co_net get_endpoint() = 0;
 
-- 
2.43.0


From 30232a516c22395ce6186b270500be6b37be6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:00 +0000
Subject: [PATCH 17/32] fix: a timed wait for a coroutine must not be touched
 after it has ended

The timer of the wait may already be dispatched when the coroutine finishes.
Its callback then ran later and used the waiter and the coroutine, which may be deleted by then.
Whoever ends the wait now marks it as ended and the other callback returns.
The timeout is no longer cut to whole milliseconds, which ended waits too early.
---
 source/cocpp/core/co_env.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..df10625 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -115,16 +115,24 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
     auto curr_ctx = current_ctx();
     if (ctx->state() != co_state::finished)
     {
-        auto timer = co_timer::create(
-            nullptr,
-            co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
+        auto timer = co_timer::create(nullptr, chrono::steady_clock::now() + timeout);
         auto timer_id = timer.get();
+        // Whoever ends the wait sets it, after that neither coroutine may be touched by the other callback
+        auto ended = make_shared<atomic<bool> >(false);
         curr_ctx->enter_wait_resource_state(timer_id);
-        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
+        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id, ended] {
+            if (ended->exchange(true))
+            {
+                return;
+            }
             timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
+        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id, ended] {
+            if (ended->exchange(true))
+            {
+                return;
+            }
             ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
-- 
2.43.0


From cd16322ba8dfee6efaed629a625f3cf26c0bc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:29 +0000
Subject: [PATCH 18/32] fix: the exception of a coroutine is rethrown in one
 waiter only

Two waiters on different threads could both find the exception before one of them cleared it.
It is now taken out under the lock of the finished state.
---
 source/cocpp/core/co_ctx.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..a4b0d35 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -130,10 +130,14 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    {
+        // Several waiters may ask at the same time
+        scoped_lock lock(finish_lock__);
+        swap(e, exception__); // 仅第一次抛出异常
+    }
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0


From 2dfd1d67ae0f47b803cf459bb09215edb670239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:39 +0000
Subject: [PATCH 19/32] fix: a new coroutine must not keep a pointer to the one
 that switched to it

The pointer was used at the end of the next yield, when that coroutine may be deleted already.
---
 source/cocpp/core/co_ctx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index a4b0d35..4c92e06 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -64,6 +64,8 @@ function<void(co_any &)> co_ctx::entry() const
 
 void co_ctx::real_entry(co_ctx *ctx)
 {
+    // The one that switched here may be deleted before this coroutine is switched to again
+    ctx->clear_pre_ctx();
     try
     {
         ctx->entry()(ctx->ret_ref());
-- 
2.43.0


From 01c0725b4aaa9caebd4918ae4a9519ae846c1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:06 +0000
Subject: [PATCH 20/32] fix: do not save the stack of a finished shared-stack
 coroutine

A finished coroutine that was given up is deleted before the environment switches stacks.
The environment then read the deleted coroutine to decide whether to save its stack.
For a finished coroutine that was still owned, the saved copy was never released.
---
 source/cocpp/core/co_env.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index df10625..b635a2e 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -283,7 +283,8 @@ bool co_env::prepare_to_switch(co_ctx *&from, co_ctx *&to)
 
     if (curr->test_flag(CO_CTX_FLAG_SHARED_STACK) || next->test_flag(CO_CTX_FLAG_SHARED_STACK))
     {
-        shared_stack_switch_info__.from = curr;
+        // The stack of a finished coroutine is not needed any more, and the coroutine may be deleted before the switch
+        shared_stack_switch_info__.from = curr->state() == co_state::finished ? nullptr : curr;
         shared_stack_switch_info__.to = next;
         shared_stack_switch_info__.need_switch = true;
 
@@ -377,7 +378,7 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
+    if (shared_stack_switch_info__.from != nullptr && shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From d624f26e44fa3fe77bd9dd7bd7aa9fc7eed84dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:25 +0000
Subject: [PATCH 21/32] fix: waiting on an empty handle throws instead of using
 a null coroutine

---
 include/cocpp/co/co_co.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cocpp/co/co_co.h b/include/cocpp/co/co_co.h
index ed3d3a4..7abd33a 100644
--- a/include/cocpp/co/co_co.h
+++ b/include/cocpp/co/co_co.h
@@ -15,6 +15,7 @@ _Pragma("once");
 #include <functional>
 #include <initializer_list>
 #include <optional>
+#include <stdexcept>
 #include <thread>
 
 CO_NAMESPACE_BEGIN
@@ -140,6 +141,10 @@ co::co(std::initializer_list<std::function<void(co_ctx_config &)> > opts, Func &
 template <CoIsNotVoid Ret>
 Ret co::wait() const
 {
+    if (!ctx__)
+    {
+        throw std::runtime_error("no coroutine to wait for");
+    }
     return CoCurrentEnv()->wait_ctx(ctx__);
 }
 
@@ -156,6 +161,10 @@ Ret co::wait() const
 template <typename Rep, typename Period>
 std::optional<co_return_value> co::wait_for(const std::chrono::duration<Rep, Period> &wait_duration) const
 {
+    if (!ctx__)
+    {
+        throw std::runtime_error("no coroutine to wait for");
+    }
     return CoCurrentEnv()->wait_ctx(ctx__, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_duration));
 }
 
-- 
2.43.0


From b0725b03917a92ffc425ba4b44bb9ecd4c82ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:15 +0000
Subject: [PATCH 22/32] fix: give realpath a buffer of the required size in the
 crash report

The buffer was smaller than a path may be, so the checked realpath aborted inside the crash handler.
The result was also used the wrong way round: the path was returned only when the call had failed.
---
 source/cocpp/exception/co_exception.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 4536fe4..66c2a82 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -6,6 +6,7 @@
 #include <cstdlib>
 #include <execinfo.h>
 #include <iomanip>
+#include <limits.h>
 #include <signal.h>
 #include <sstream>
 #include <unistd.h>
@@ -22,9 +23,9 @@ static void signal_handler(int signo) __attribute__((optimize("O0"))); // 信号
 
 static string exe_path()
 {
-    char buf[1024];
+    char buf[PATH_MAX];
     char *ret = realpath("/proc/self/exe", buf);
-    if (ret != nullptr)
+    if (ret == nullptr)
     {
         return "";
     }
-- 
2.43.0


From 227e77e8f43a0fab67653c74ec20b758f5e5decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:37 +0000
Subject: [PATCH 23/32] fix: subscribers may unsubscribe while their event is
 published

---
 include/cocpp/event/co_event.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..d4aeb55 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -46,9 +46,14 @@ template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    // Callbacks may subscribe and unsubscribe
+    auto cb_list = cb_list__;
+    for (auto &&[h, cb] : cb_list)
     {
-        cb(args...);
+        if (cb_list__.contains(h))
+        {
+            cb(args...);
+        }
     }
 }
 
-- 
2.43.0


From 78cb29b41ee82d4d87c7bde53e429c335371c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:37 +0000
Subject: [PATCH 24/32] fix: keep event subscriptions under their full handle

---
 include/cocpp/event/co_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index d4aeb55..09d1f02 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -17,7 +17,7 @@ template <std::copyable... Args>
 class co_event final : private co_noncopyable
 {
 private:
-    std::map<int, std::function<void(Args... args)> > cb_list__;
+    std::map<co_event_handle, std::function<void(Args... args)> > cb_list__;
     mutable std::recursive_mutex mu_cb_list__;
     co_event_handle current_handler__ {0};
 
-- 
2.43.0


From 0606a5f114e26999e1fb75bc87d883a7e3e2f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:31 +0000
Subject: [PATCH 25/32] fix: reading coroutine-local storage with another type
 throws instead of using a null pointer

---
 include/cocpp/core/co_ctx.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cocpp/core/co_ctx.h b/include/cocpp/core/co_ctx.h
index 830e493..98b56b9 100644
--- a/include/cocpp/core/co_ctx.h
+++ b/include/cocpp/core/co_ctx.h
@@ -11,6 +11,7 @@ _Pragma("once");
 #include <exception>
 #include <memory>
 #include <mutex>
+#include <typeinfo>
 
 CO_NAMESPACE_BEGIN
 
@@ -116,7 +117,12 @@ T &co_ctx::local_storage(const std::string &name)
     {
         locals__[name] = std::make_shared<co_local<T> >();
     }
-    return std::dynamic_pointer_cast<co_local<T> >(locals__[name])->get();
+    auto local = std::dynamic_pointer_cast<co_local<T> >(locals__[name]);
+    if (local == nullptr)
+    {
+        throw std::bad_cast();
+    }
+    return local->get();
 }
 
 CO_NAMESPACE_END
-- 
2.43.0


From f7870cc49f0ff115ef8711511385ce78bd2a5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:17 +0000
Subject: [PATCH 26/32] fix: align the stack of a new coroutine whatever its
 size

---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 1552d78..e6d3d49 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -98,8 +98,10 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
 void init_ctx(co_stack *stack, co_ctx *ctx)
 {
     auto context = get_sigcontext_64(ctx);
-    CO_SETREG(context, sp, stack->stack_top() - 8);
-    CO_SETREG(context, bp, stack->stack_top() - 8);
+    // The size of a stack need not be a multiple of the alignment that a call requires
+    auto top = reinterpret_cast<unsigned long long>(stack->stack_top()) & ~0xfULL;
+    CO_SETREG(context, sp, top - 8);
+    CO_SETREG(context, bp, top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
-- 
2.43.0


From 4378ec29eeca763ec18e90b8f544e364fc592ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:34 +0000
Subject: [PATCH 27/32] fix: do not put unbound coroutines into an idle
 exclusive environment

---
 source/cocpp/core/co_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 77f30f7..a3a0067 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -33,10 +33,6 @@ co_env *co_manager::get_best_env__()
     size_t can_schedule_env_count = 0;
     for (auto &&env : env_set__.normal_set)
     {
-        if (env->state() == co_env_state::idle)
-        {
-            return env;
-        }
         if (!env->can_schedule_ctx())
         {
             continue;
@@ -46,6 +42,10 @@ co_env *co_manager::get_best_env__()
         {
             continue;
         }
+        if (env->state() == co_env_state::idle)
+        {
+            return env;
+        }
         // 统计可用于调度的env数量
         ++can_schedule_env_count;
         if (env->workload() < min_workload)
-- 
2.43.0


From ccd05b9218164ea721a2a2486f7e9703581c080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:22 +0000
Subject: [PATCH 28/32] fix: an environment must not be stopped between being
 chosen and receiving a coroutine

---
 source/cocpp/core/co_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a3a0067..11a26f4 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -424,6 +424,8 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
         ctx->lock_destroy();
     }
     auto bind_env = ctx->config().bind_env;
+    // Environments are stopped under this lock, the one chosen must not be until it has the coroutine
+    scoped_lock lock(env_set__.normal_lock);
     if (bind_env != nullptr)
     {
         bind_env->add_ctx(ctx);
-- 
2.43.0


From 8512543f054f8e29886e15c84239c51e6000f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:19 +0000
Subject: [PATCH 29/32] fix: do not hold the timer queue's lock while
 describing timers and environments

Describing the manager took the lock of the timer queue before the locks of timers and environments.
Starting or stopping a timer takes them the other way round, so the two could wait for each other for ever.
---
 source/cocpp/core/co_manager.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 11a26f4..298b01d 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -505,8 +505,6 @@ void co_manager::remove_timer_from_queue__(shared_ptr<co_timer> timer)
 
 string co_manager::manager_info()
 {
-    scoped_lock lock(mu_timer_queue__, mu_timer_duration__, mu_timer_queue__);
-
     stringstream ss;
 
     // env set
@@ -539,17 +537,22 @@ string co_manager::manager_info()
     ss << "clean up: " << clean_up__ << endl;
 
     // timer duration
-    ss << "timer duration: " << timer_duration__.count() << endl;
+    {
+        scoped_lock lock(mu_timer_duration__);
+        ss << "timer duration: " << timer_duration__.count() << endl;
+    }
 
     // timer queue
     ss << "timer queue: " << endl;
-    {
+    // A timer takes its own lock before the one of the queue, so it must not be asked under the latter
+    auto timers = [this] {
         scoped_lock lock(mu_timer_queue__);
-        ss << "count: " << timer_queue__.size() << endl;
-        for (auto &&timer : timer_queue__)
-        {
-            ss << timer->timer_info() << endl;
-        }
+        return timer_queue__;
+    }();
+    ss << "count: " << timers.size() << endl;
+    for (auto &&timer : timers)
+    {
+        ss << timer->timer_info() << endl;
     }
 
     // default shared stack size
-- 
2.43.0


From dc4bb2374c7ac23e5025f15393aa8f9bf0e734d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:06:09 +0000
Subject: [PATCH 30/32] fix: write the settings of the pool under its lock

The thread counts and the size of shared stacks were written without the lock under which other threads read them.
---
 source/cocpp/core/co_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 298b01d..a33bb8b 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -104,6 +104,7 @@ co_env *co_manager::create_env(bool dont_auto_destroy)
 
 void co_manager::set_env_shared_stack_size(size_t size)
 {
+    scoped_lock lock(env_set__.normal_lock);
     default_shared_stack_size__ = size;
 }
 
@@ -234,6 +235,7 @@ void co_manager::set_base_schedule_thread_count(size_t base_thread_count)
     {
         base_thread_count = 1;
     }
+    scoped_lock lock(env_set__.normal_lock);
     env_set__.base_env_count = base_thread_count;
 }
 
@@ -243,6 +245,7 @@ void co_manager::set_max_schedule_thread_count(size_t max_thread_count)
     {
         max_thread_count = 1;
     }
+    scoped_lock lock(env_set__.normal_lock);
     env_set__.max_env_count = max_thread_count;
 }
 
-- 
2.43.0


From e863285e97c41e081964f01591967091ca0507b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:26 +0000
Subject: [PATCH 31/32] fix: hand out the tick duration by value

It was handed out as a reference, which the background thread read after the lock was released.
---
 include/cocpp/core/co_manager.h  | 2 +-
 source/cocpp/core/co_manager.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/core/co_manager.h b/include/cocpp/core/co_manager.h
index 7aa0ffd..42d2f4a 100644
--- a/include/cocpp/core/co_manager.h
+++ b/include/cocpp/core/co_manager.h
@@ -88,7 +88,7 @@ public:
     void set_max_schedule_thread_count(size_t max_thread_count);
     void set_timer_tick_duration(
         const std::chrono::steady_clock::duration &duration);
-    const std::chrono::steady_clock::duration &timing_duration() const;
+    std::chrono::steady_clock::duration timing_duration() const;
     ~co_manager();
     std::string manager_info();
 
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a33bb8b..7595ac7 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -398,7 +398,7 @@ void co_manager::set_timer_tick_duration(
     }
 }
 
-const chrono::steady_clock::duration &co_manager::timing_duration() const
+chrono::steady_clock::duration co_manager::timing_duration() const
 {
     scoped_lock lock(mu_timer_duration__);
     return timer_duration__;
-- 
2.43.0


From ac5df0e3f212f6b33d4fb92d66347d8d24844d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:05:18 +0000
Subject: [PATCH 32/32] fix: destroy the expired environments before the
 cleaner ends

The cleaner left without looking at the list of expired environments
when its thread got to run only after the shutdown was requested.
---
 source/cocpp/core/co_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 7595ac7..2b491d7 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -200,7 +200,7 @@ void co_manager::set_clean_up__()
 void co_manager::clean_env_routine__()
 {
     unique_lock lck(env_set__.normal_lock);
-    while (!clean_up__ || !env_set__.normal_set.empty())
+    while (!clean_up__ || !env_set__.normal_set.empty() || !env_set__.expired_set.empty())
     {
         if (clean_up__)
         {
-- 
2.43.0

