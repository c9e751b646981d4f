From 69b22583acb9c313930a1ba8a67e82d53ebf6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 01/59] fix: deliver notify_all_at_thread_exit and
 make-ready-at-thread-exit on the exiting thread

They were performed by ~thread_data_base, i.e. only when the last boost::thread
referring to the thread was joined or destroyed (and on that thread, which then
unlocked a mutex it does not own), and never for threads not started by
boost::thread.
---
 src/pthread/thread.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..73cffb8 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -48,19 +48,6 @@ namespace boost
     {
         thread_data_base::~thread_data_base()
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
-                    i != e; ++i)
-            {
-                i->second->unlock();
-                i->first->notify_all();
-            }
-//#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
-                    i != e; ++i)
-            {
-                (*i)->notify_deferred();
-            }
-//#endif
         }
 
         struct thread_exit_callback_node
@@ -117,6 +104,25 @@ namespace boost
                                 thread_info->tss_data.erase(current);
                             }
                         }
+                        // Do this here, on the exiting thread, and not in ~thread_data_base:
+                        // a boost::thread object can keep thread_info alive after the exit.
+                        thread_data_base::notify_list_t notify;
+                        notify.swap(thread_info->notify);
+                        for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
+                                i != e; ++i)
+                        {
+                            i->second->unlock();
+                            i->first->notify_all();
+                        }
+//#ifndef BOOST_NO_EXCEPTIONS
+                        thread_data_base::async_states_t async_states;
+                        async_states.swap(thread_info->async_states_);
+                        for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
+                                i != e; ++i)
+                        {
+                            (*i)->notify_deferred();
+                        }
+//#endif
                         thread_info->self.reset();
                     }
                 }
@@ -224,8 +230,6 @@ namespace boost
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -789,7 +793,7 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
@@ -801,7 +805,7 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->make_ready_at_thread_exit(as);
-- 
2.43.0


From 6d25fc3d6a7c9cbc991a817df6ee34a9235cc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 02/59] fix: wake and select shared_mutex timed conversions
 correctly

---
 include/boost/thread/pthread/shared_mutex.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..0afc67c 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,13 @@ namespace boost
                 return shared_count==1;
             }
 
+            // one_shared() and the owner is not competing with a thread that has,
+            // or is converting from, upgrade ownership.
+            bool only_shared () const
+            {
+                return shared_count==1 && !upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -261,6 +268,12 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // a timed conversion to exclusive ownership waits on shared_cond
+                // until its thread is the only one left.
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
@@ -569,7 +582,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::only_shared, &state)))
           {
               return false;
           }
@@ -623,7 +636,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 8952a11c5d29446d39ccc3d40a6d20c80940273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 03/59] fix: reopen the v2 shared_mutex gate when a timed
 writer or upgrader gives up

---
 include/boost/thread/v2/shared_mutex.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..09395ec 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // the threads held at gate1_ by write_entered_ can proceed again
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +330,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // the threads held at gate1_ by write_entered_ can proceed again
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +689,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // the threads held at gate1_ by write_entered_ can proceed again
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +712,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // the threads held at gate1_ by write_entered_ can proceed again
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -908,9 +916,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left during the wait
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1019,9 +1029,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left during the wait
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From 2b6bc61207474216bcf61fd8e946432224d184ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 04/59] fix: do not let an interruption escape a v2
 shared_mutex wait with the gate left closed

---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 09395ec..ab7df4a 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -153,6 +153,9 @@ public:
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
 #include <boost/thread/mutex.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -274,6 +277,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +302,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -319,6 +328,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -353,6 +365,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -378,6 +393,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -395,6 +413,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -656,6 +677,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -678,6 +702,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -701,6 +728,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -736,6 +766,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -761,6 +794,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -778,6 +814,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -814,6 +853,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -839,6 +881,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -856,6 +901,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -903,6 +951,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -960,6 +1011,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -990,6 +1044,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1019,6 +1076,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From 059dfc413093f3f396c0fddf33aa90e1739947ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 05/59] fix: sync_bounded_queue::size() counts modulo the ring
 size

---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..a4ee75c 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return (in_ + capacity_ - out_) % capacity_;
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 4310ec559811b1f54cff4ff5106c4501bd1d5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 06/59] fix: leave a moved-from devector empty

---
 include/boost/thread/csbl/devector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..4baf7aa 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +65,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From 0b8a68cff8e8b0e991abe598546d30eb26025ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 07/59] fix: sync_bounded_queue passes on the notification of a
 push or pull that throws

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 87 +++++++++++++++++--
 1 file changed, 79 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index a4ee75c..9074284 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -152,6 +152,31 @@ namespace concurrent
     inline size_type wait_until_not_full(unique_lock<mutex>& lk);
     inline size_type wait_until_not_full(unique_lock<mutex>& lk, bool&);
 
+    // a wait that is interrupted hands the notification it may have received over to another waiter
+    inline void wait_not_empty(unique_lock<mutex>& lk)
+    {
+      try
+      {
+        not_empty_.wait(lk);
+      }
+      catch (...)
+      {
+        if (! empty(lk)) notify_not_empty_if_needed(lk);
+        throw;
+      }
+    }
+    inline void wait_not_full(unique_lock<mutex>& lk)
+    {
+      try
+      {
+        not_full_.wait(lk);
+      }
+      catch (...)
+      {
+        if (! full(lk)) notify_not_full_if_needed(lk);
+        throw;
+      }
+    }
 
     inline void notify_not_empty_if_needed(unique_lock<mutex>& lk)
     {
@@ -175,7 +200,16 @@ namespace concurrent
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
     inline void pull(value_type& elem, unique_lock<mutex>& lk)
     {
-      elem = boost::move(data_[out_]);
+      try
+      {
+        elem = boost::move(data_[out_]);
+      }
+      catch (...)
+      {
+        // the element stays in the queue: let another waiting consumer have it
+        notify_not_empty_if_needed(lk);
+        throw;
+      }
       out_ = inc(out_);
       notify_not_full_if_needed(lk);
     }
@@ -188,7 +222,17 @@ namespace concurrent
     }
     inline boost::shared_ptr<value_type> ptr_pull(unique_lock<mutex>& lk)
     {
-      shared_ptr<value_type> res = make_shared<value_type>(boost::move(data_[out_]));
+      shared_ptr<value_type> res;
+      try
+      {
+        res = make_shared<value_type>(boost::move(data_[out_]));
+      }
+      catch (...)
+      {
+        // the element stays in the queue: let another waiting consumer have it
+        notify_not_empty_if_needed(lk);
+        throw;
+      }
       out_ = inc(out_);
       notify_not_full_if_needed(lk);
       return res;
@@ -196,7 +240,16 @@ namespace concurrent
 #endif
     inline void pull_front(value_type& elem, unique_lock<mutex>& lk)
     {
-      elem = boost::move(data_[out_]);
+      try
+      {
+        elem = boost::move(data_[out_]);
+      }
+      catch (...)
+      {
+        // the element stays in the queue: let another waiting consumer have it
+        notify_not_empty_if_needed(lk);
+        throw;
+      }
       out_ = inc(out_);
       notify_not_full_if_needed(lk);
     }
@@ -216,13 +269,31 @@ namespace concurrent
 
     inline void push_at(const value_type& elem, size_type in_p_1, unique_lock<mutex>& lk)
     {
-      data_[in_] = elem;
+      try
+      {
+        data_[in_] = elem;
+      }
+      catch (...)
+      {
+        // the slot stays free: let another waiting producer have it
+        notify_not_full_if_needed(lk);
+        throw;
+      }
       set_in(in_p_1, lk);
     }
 
     inline void push_at(BOOST_THREAD_RV_REF(value_type) elem, size_type in_p_1, unique_lock<mutex>& lk)
     {
-      data_[in_] = boost::move(elem);
+      try
+      {
+        data_[in_] = boost::move(elem);
+      }
+      catch (...)
+      {
+        // the slot stays free: let another waiting producer have it
+        notify_not_full_if_needed(lk);
+        throw;
+      }
       set_in(in_p_1, lk);
     }
   };
@@ -413,7 +484,7 @@ namespace concurrent
       if (out_ != in_) break;
       throw_if_closed(lk);
       ++waiting_empty_;
-      not_empty_.wait(lk);
+      wait_not_empty(lk);
     }
   }
   template <typename ValueType>
@@ -424,7 +495,7 @@ namespace concurrent
       if (out_ != in_) break;
       if (closed_) {closed=true; return;}
       ++waiting_empty_;
-      not_empty_.wait(lk);
+      wait_not_empty(lk);
     }
   }
 
@@ -584,7 +655,7 @@ namespace concurrent
         return in_p_1;
       }
       ++waiting_full_;
-      not_full_.wait(lk);
+      wait_not_full(lk);
     }
   }
 
-- 
2.43.0


From cf544ab7e95f31bafc32e2f062b8599358237bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 08/59] fix: sync_bounded_queue::wait_push_back reports a queue
 closed while waiting by its status

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 9074284..afe83eb 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -613,8 +613,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -658,6 +660,21 @@ namespace concurrent
       wait_not_full(lk);
     }
   }
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      wait_not_full(lk);
+    }
+  }
 
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
@@ -718,8 +735,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 683b9c4d5627dffb7da3e945bee43bc99b6917d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 09/59] fix: sync_timed_queue::pull_until rounds a finer
 deadline up, not down

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..1b31afb 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -11,6 +11,7 @@
 #include <boost/thread/detail/config.hpp>
 
 #include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
+#include <boost/chrono/ceil.hpp>
 #include <boost/chrono/duration.hpp>
 #include <boost/chrono/time_point.hpp>
 #include <boost/chrono/system_clocks.hpp>
@@ -383,7 +384,7 @@ namespace detail
   sync_timed_queue<T, Clock, TimePoint>::pull_until(chrono::time_point<clock,Duration> const& tp, T& elem)
   {
     unique_lock<mutex> lk(super::mtx_);
-    const queue_op_status rc = wait_to_pull_until(lk, chrono::time_point_cast<typename time_point::duration>(tp));
+    const queue_op_status rc = wait_to_pull_until(lk, time_point(chrono::ceil<typename time_point::duration>(tp.time_since_epoch())));
     if (rc == queue_op_status::success) pull(lk, elem);
     return rc;
   }
-- 
2.43.0


From df2248b106530f1aada5c674bdecf17aa7afa66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 10/59] fix: sync_timed_queue::pull_until does not look at the
 top of an empty queue when the clock steps back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index 1b31afb..0d50d99 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -290,6 +290,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return queue_op_status::success;
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
+      if (super::empty(lk)) continue; // the clock was stepped back
 
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
-- 
2.43.0


From fc7609bd66c84bc4d6d47cfe4db727a29f913488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 11/59] fix: never pass a negative nanosecond field for a
 deadline before the epoch

---
 include/boost/thread/detail/platform_time.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..c74da56 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -117,9 +117,16 @@ inline FP init_steady_clock(kern_return_t & err)
     inline timespec ns_to_timespec(boost::time_max_t const& ns)
     {
       boost::time_max_t s = ns / 1000000000l;
+      boost::time_max_t r = ns - s * 1000000000l;
+      if (r < 0)
+      {
+        // tv_nsec must never be negative
+        --s;
+        r += 1000000000l;
+      }
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
-      ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
+      ts.tv_nsec = static_cast<long> (r);
       return ts;
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
@@ -147,6 +154,12 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
+        if (ts_val.tv_nsec < 0)
+        {
+          // tv_nsec must never be negative
+          --ts_val.tv_sec;
+          ts_val.tv_nsec += 1000000000l;
+        }
 #else
         ns_val = static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l;
         ns_val += rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second());
-- 
2.43.0


From cbd57344a36e6c00aeeb0c7d86273a8ba517d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 12/59] fix: a signal does not cut
 no_interruption_point::sleep_for short

---
 src/pthread/thread.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 73cffb8..13cba3e 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -40,6 +40,7 @@
 #include <string>
 #include <set>
 #include <vector>
+#include <errno.h>
 #include <string.h> // memcmp.
 
 namespace boost
@@ -460,7 +461,11 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // a signal must not cut the sleep short
+                        timespec left = ts.getTs();
+                        while (nanosleep(&left, &left) == -1 && errno == EINTR)
+                        {
+                        }
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From e2684dfea157c377c6cd55165b310e012baf59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 13/59] fix: timed_lock with a special duration does not report
 a lock it did not take

---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From 040794eabd3ab4295bafbf608deffc0bf8d29805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 14/59] fix: thread-specific data stay visible to exit
 functions and cleanups of external threads

pthread sets the slot to null before calling its destructor, so on threads not created
by the library at_thread_exit functions and tss cleanups saw every pointer as null, and
a reset() from there left the previous value behind in a second data block.
---
 src/pthread/thread.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 13cba3e..3368b90 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -80,6 +80,13 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // pthread resets the slot of an externally launched thread before calling its
+                        // destructor: exit functions and cleanups must still find the thread's data.
+                        bool const slot_was_reset = pthread_getspecific(current_thread_tls_key) == 0;
+                        if(slot_was_reset)
+                        {
+                            BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,thread_info.get()));
+                        }
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
                         {
 
@@ -105,6 +112,10 @@ namespace boost
                                 thread_info->tss_data.erase(current);
                             }
                         }
+                        if(slot_was_reset)
+                        {
+                            BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
+                        }
                         // Do this here, on the exiting thread, and not in ~thread_data_base:
                         // a boost::thread object can keep thread_info alive after the exit.
                         thread_data_base::notify_list_t notify;
-- 
2.43.0


From 539bc52231c97be395cd01853a5bda0482fb663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 15/59] fix: promise move assignment breaks the promise it
 overwrites

---
 include/boost/thread/future.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..d7599b6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2327,10 +2327,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destruction of the previous state, now in tmp, breaks its promise
+            promise tmp(boost::move(rhs));
+            tmp.swap(*this);
             return *this;
         }
 
@@ -2618,10 +2617,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destruction of the previous state, now in tmp, breaks its promise
+            promise tmp(boost::move(rhs));
+            tmp.swap(*this);
             return *this;
         }
 
@@ -2801,10 +2799,9 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the destruction of the previous state, now in tmp, breaks its promise
+            promise tmp(boost::move(rhs));
+            tmp.swap(*this);
             return *this;
         }
 
-- 
2.43.0


From eaa30d41c1a8b1f250a784bbd70582df79ecd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/59] fix: set_value and set_exception of a promise without
 state raise promise_moved

---
 include/boost/thread/future.hpp | 50 ++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d7599b6..bd50b37 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2373,6 +2373,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2384,6 +2388,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2396,6 +2404,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2451,6 +2463,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2464,6 +2480,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2538,6 +2558,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2648,6 +2672,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2660,13 +2688,17 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2721,6 +2753,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2832,6 +2868,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2852,6 +2892,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2906,6 +2950,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
-- 
2.43.0


From 689b78568385907454b277398444eb0c26aa03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 17/59] fix: set_*_at_thread_exit on a fresh lazy promise

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index bd50b37..08692dc 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2516,6 +2516,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2525,6 +2526,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2534,6 +2536,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2542,6 +2545,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2728,6 +2732,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2737,6 +2742,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2925,6 +2931,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2934,6 +2941,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
-- 
2.43.0


From 9a2cb76978d4011f03b8a7f11dd1460c15c2ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 18/59] fix: a result set with deferred notification cannot be
 set again

---
 include/boost/thread/future.hpp | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 08692dc..b35f320 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -501,6 +501,12 @@ namespace boost
                 return done && exception;
             }
 
+            // ready, or set with deferred notification
+            bool is_satisfied(unique_lock<boost::mutex>& )  const
+            {
+                return done || is_constructed;
+            }
+
             launch launch_policy(boost::unique_lock<boost::mutex>&) const
             {
                 return policy_;
@@ -669,7 +675,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +690,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +816,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +891,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2378,7 +2384,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2393,7 +2399,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2409,7 +2415,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2468,7 +2474,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2485,7 +2491,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2681,7 +2687,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2704,7 +2710,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2879,7 +2885,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2903,7 +2909,7 @@ namespace boost
                 boost::throw_exception(promise_moved());
             }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From 3d53cc9791e81e7703ae124d24f401f75c8ac76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 19/59] fix: an interrupted future::get leaves the future valid

---
 include/boost/thread/future.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index b35f320..6e1eae4 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1805,6 +1805,8 @@ namespace boost
                 boost::throw_exception(future_uninitialized());
             }
 #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+            // an interrupted wait leaves the future valid
+            this->future_->wait(lk, false);
             this->future_->invalidate(lk);
 #endif
             return this->future_->get(lk);
@@ -2066,6 +2068,8 @@ namespace boost
                     boost::throw_exception(future_uninitialized());
                 }
     #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+                // an interrupted wait leaves the future valid
+                this->future_->wait(lk, false);
                 this->future_->invalidate(lk);
     #endif
                 return this->future_->get(lk);
-- 
2.43.0


From 1693223575c56020d7e9fb867c593e078d7ebc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 20/59] fix: shared_future::get_or returns the fallback instead
 of rethrowing

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6e1eae4..140a75a 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2243,7 +2243,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 57dfcc116d71169afbbca3d5b627ca9e665fc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 21/59] fix: packaged_task::set_wait_callback without a task
 throws task_moved

---
 include/boost/thread/future.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 140a75a..2c329e6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3868,6 +3868,9 @@ namespace boost
 #endif
         template<typename F>
         void set_wait_callback(F f) {
+            if(!task) {
+                boost::throw_exception(task_moved());
+            }
             task->set_wait_callback(f,this);
         }
     };
-- 
2.43.0


From 0010f1dc59fc595e4035fdb60d04730ab9fb88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 22/59] fix: make_shared_future() returns a ready future
 instead of a broken promise

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2c329e6..e4159be 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4531,6 +4531,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From 1c324408a97d153db40b7b3b4db8d28741db028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 23/59] fix: packaged_task::reset gives a fresh shared state
 and breaks the old one if it was not run

---
 include/boost/thread/future.hpp | 44 ++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index e4159be..c02065b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3030,13 +3030,8 @@ namespace boost
                 started(false)
             {}
 
-            void reset()
-            {
-              // todo The packaged_task::reset must be as if an assignemnt froma new packaged_task with the same function
-              // the reset function is an optimization that avoids reallocating a new task.
-              started=false;
-              this->validate();
-            }
+            // a fresh state with the same function
+            virtual boost::shared_ptr<shared_state_base> renew()=0;
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             virtual void do_run(BOOST_THREAD_RV_REF(ArgTypes) ... args)=0;
             void run(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3128,6 +3123,11 @@ namespace boost
               return boost::move(f);
             }
 
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::shared_ptr<shared_state_base>(new task_shared_state(boost::move(f)));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3208,6 +3208,11 @@ namespace boost
               return f;
             }
 
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::shared_ptr<shared_state_base>(new task_shared_state(boost::move(f)));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3288,6 +3293,11 @@ namespace boost
                   return f;
                 }
 
+                boost::shared_ptr<shared_state_base> renew()
+                {
+                  return boost::shared_ptr<shared_state_base>(new task_shared_state(f));
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3367,6 +3377,11 @@ namespace boost
                   return boost::move(f);
                 }
 
+                boost::shared_ptr<shared_state_base> renew()
+                {
+                  return boost::shared_ptr<shared_state_base>(new task_shared_state(f));
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3442,6 +3457,11 @@ namespace boost
             {
               return boost::move(f);
             }
+
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::shared_ptr<shared_state_base>(new task_shared_state(boost::move(f)));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3517,6 +3537,11 @@ namespace boost
             {
               return f;
             }
+
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::shared_ptr<shared_state_base>(new task_shared_state(f));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3809,9 +3834,10 @@ namespace boost
               boost::throw_exception(future_error(system::make_error_code(future_errc::no_state)));
 
             // As if *this = packaged_task(task->callable());
-
-            task->reset();
+            task_ptr fresh = boost::static_pointer_cast<typename task_ptr::element_type>(task->renew());
+            task.swap(fresh);
             future_obtained=false;
+            fresh->owner_destroyed();
         }
 
         void swap(packaged_task& other) BOOST_NOEXCEPT {
-- 
2.43.0


From 362fc2db99e3699a1dc4edfaeb3e65802deb416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 24/59] fix: a deferred function returning a reference runs
 without the shared state's lock

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c02065b..b9c4fbe 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1087,7 +1087,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From fe992aa2512c9a78f933b6deec0991fefc3cda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 25/59] fix: make_future copies from an lvalue argument instead
 of moving from it

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index b9c4fbe..47a0048 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4403,7 +4403,7 @@ namespace detail {
   BOOST_THREAD_FUTURE<typename decay<T>::type> make_future(BOOST_THREAD_FWD_REF(T) value) {
     typedef typename decay<T>::type future_value_type;
     promise<future_value_type> p;
-    p.set_value(boost::forward<future_value_type>(value));
+    p.set_value(boost::forward<T>(value));
     return BOOST_THREAD_MAKE_RV_REF(p.get_future());
   }
 
-- 
2.43.0


From ebc91c130f082b40e9a2faf29cbcbed7b22275f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 26/59] fix: a deferred continuation that nobody waits for does
 not keep itself and its antecedent alive for ever

---
 include/boost/thread/future.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 47a0048..0b5a699 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4943,12 +4943,11 @@ namespace detail {
   template<typename F, typename Rp, typename Fp>
   BOOST_THREAD_FUTURE<Rp>
   make_future_deferred_continuation_shared_state(
-      boost::unique_lock<boost::mutex> &lock,
+      boost::unique_lock<boost::mutex> &,
       BOOST_THREAD_RV_REF(F) f, BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new future_deferred_continuation_shared_state<F, Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
 
@@ -5008,13 +5007,11 @@ namespace detail {
   template<typename F, typename Rp, typename Fp>
   BOOST_THREAD_FUTURE<Rp>
   make_shared_future_deferred_continuation_shared_state(
-      boost::unique_lock<boost::mutex> &lock,
+      boost::unique_lock<boost::mutex> &,
       F f, BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<shared_future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new shared_future_deferred_continuation_shared_state<F, Rp, Cont>(f, boost::forward<Fp>(c)));
-    h->init(lock);
-
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
   ////////////////////////////////
-- 
2.43.0


From c9d6ede90503350477ee1afc8252ac01133be555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 27/59] fix: unwrapping an invalid inner future reports
 broken_promise as documented

---
 include/boost/thread/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0b5a699..4ed98b6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5517,7 +5517,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
@@ -5557,7 +5557,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
-- 
2.43.0


From 7c8d094f28c04adcd8a9ba5b46bafe00704c974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 28/59] fix: a deferred continuation does not hold its own lock
 while it waits for the antecedent

---
 include/boost/thread/future.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 4ed98b6..f193976 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4907,7 +4907,10 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
@@ -4930,7 +4933,10 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From da6ba8cd86496291b9f5fe8fbf43cad97a498e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 29/59] fix: continuations inheriting an executor share the
 antecedent's executor reference instead of pointing into its state

---
 include/boost/thread/future.hpp | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index f193976..7669f50 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4804,6 +4804,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // the executor of the antecedent is shared, as the antecedent can be destroyed before it is used
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
@@ -4883,6 +4890,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // the executor of the antecedent is shared, as the antecedent can be destroyed before it is used
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
@@ -5099,8 +5113,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5123,8 +5137,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5225,8 +5239,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5249,8 +5263,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5351,8 +5365,8 @@ namespace detail {
               )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                     lock, *this, boost::forward<F>(func)
                 )));
@@ -5374,8 +5388,8 @@ namespace detail {
                   )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                         lock, *this, boost::forward<F>(func)
                     )));
-- 
2.43.0


From 76e653bacdde9ed8fe99f724fbf88a36ab44d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 30/59] fix: interrupting a waiter of a deferred continuation
 does not leave the future never ready

---
 include/boost/thread/future.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7669f50..24e52d6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -387,12 +387,16 @@ namespace boost
             void wait_internal(boost::unique_lock<boost::mutex> &lk, bool rethrow=true)
             {
               do_callback(lk);
-              if (is_deferred_)
+              while (!done)
               {
-                is_deferred_=false;
-                execute(lk);
+                if (is_deferred_)
+                {
+                  is_deferred_=false;
+                  execute(lk);
+                }
+                else
+                  waiters.wait(lk);
               }
-              waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
               if(rethrow && exception)
               {
                   boost::rethrow_exception(exception);
@@ -4921,9 +4925,14 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      {
+      try {
         relocker relock(lk);
         this->parent.wait();
+      } catch (...) {
+        // the wait was interrupted: the next waiter runs the continuation
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
       }
       this->call(lk);
     }
@@ -4947,9 +4956,14 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      {
+      try {
         relocker relock(lk);
         this->parent.wait();
+      } catch (...) {
+        // the wait was interrupted: the next waiter runs the continuation
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
       }
       this->call(lk);
     }
-- 
2.43.0


From 7b51b0a44c6c2d595bdff3bed8f7bb5e7cf27607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 31/59] fix: wait_for_any: lock the futures' mutexes without
 deadlock and each one once

---
 include/boost/thread/future.hpp               | 15 ++++++++++++---
 include/boost/thread/futures/wait_for_any.hpp | 17 +++++++++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 24e52d6..3829e45 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1160,12 +1160,21 @@ namespace boost
                    boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
                 all_futures_lock(std::vector<registered_waiter>& futures):
-                    count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
+                    count(0),locks(new boost::unique_lock<boost::mutex>[futures.size()])
                 {
-                    for(count_type_portable i=0;i<count;++i)
+                    // Several futures may refer to the same shared state: lock each mutex once.
+                    for(count_type i=0;i<futures.size();++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        boost::mutex* m=&futures[i].future_->mutex;
+                        count_type_portable j=0;
+                        while(j<count && locks[j].mutex()!=m) ++j;
+                        if(j==count)
+                        {
+                            locks[count++]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(*m, boost::defer_lock));
+                        }
                     }
+                    // Lock all of them without deadlock, whatever the order of the futures.
+                    lock();
                 }
 
                 void lock()
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..d3d20d2 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -58,12 +58,21 @@ namespace boost
         boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
         all_futures_lock(std::vector<registered_waiter>& waiters) :
-          count(waiters.size()), locks(new boost::unique_lock<boost::mutex>[count])
+          count(0), locks(new boost::unique_lock<boost::mutex>[waiters.size()])
         {
-          for (count_type_portable i = 0; i < count; ++i)
+          // Several futures may refer to the same shared state: lock each mutex once.
+          for (count_type i = 0; i < waiters.size(); ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            boost::mutex* m = &waiters[i].future_->mutex();
+            count_type_portable j = 0;
+            while (j < count && locks[j].mutex() != m) ++j;
+            if (j == count)
+            {
+              locks[count++] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(*m, boost::defer_lock));
+            }
           }
+          // Lock all of them without deadlock, whatever the order of the futures.
+          lock();
         }
 
         void lock()
@@ -125,7 +134,7 @@ namespace boost
         {
           for (count_type i = 0; i < waiters_.size(); ++i)
           {
-            if (waiters_[i].future_->is_ready(lk.locks[i]))
+            if (waiters_[i].future_->is_ready(lk.locks[0]))
             {
               return waiters_[i].index;
             }
-- 
2.43.0


From 91cd6845fdbf68d168c4194c24f92b05403cf7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 32/59] fix: wait_for_any(first, last): count invalid futures
 so that the right position is returned

---
 include/boost/thread/futures/wait_for_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index d3d20d2..a7edb71 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -114,8 +114,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From ccafe893ade3c42e0549caa918a8a268d3348c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 33/59] fix: when_all/when_any(first, last): copy
 shared_futures, they stay valid

---
 include/boost/thread/future.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 3829e45..5fea226 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5655,6 +5655,26 @@ namespace detail
   BOOST_CONSTEXPR_OR_CONST input_iterator_tag input_iterator_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST vector_tag vector_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST values_tag values_tag_value = {};
+  // The futures are moved from the input range, the shared_futures are copied (they stay valid).
+  template<typename F>
+  struct when_vector_maker
+  {
+    template< typename InputIterator>
+    static csbl::vector<F> make(InputIterator first, InputIterator last)
+    {
+      return csbl::vector<F>(std::make_move_iterator(first), std::make_move_iterator(last));
+    }
+  };
+  template<typename R>
+  struct when_vector_maker<shared_future<R> >
+  {
+    template< typename InputIterator>
+    static csbl::vector<shared_future<R> > make(InputIterator first, InputIterator last)
+    {
+      return csbl::vector<shared_future<R> >(first, last);
+    }
+  };
+
   ////////////////////////////////
   // detail::future_async_when_all_shared_state
   ////////////////////////////////
@@ -5701,7 +5721,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_all_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_vector_maker<F>::make(first, last))
     {
     }
 
@@ -5772,7 +5792,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_any_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_vector_maker<F>::make(first, last))
     {
     }
 
-- 
2.43.0


From 8c0dde290184ed3c576ea8945e007e93d5bb2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 34/59] fix: when_all(futures...): run every deferred input

---
 include/boost/thread/future.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 5fea226..2cf3dd0 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5840,7 +5840,9 @@ namespace detail
   struct accumulate_run_if_is_deferred {
     bool operator ()(Tuple& t)
     {
-      return (! csbl::get<i-1>(t).run_if_is_deferred()) || accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      // all the deferred functions have to run, in order
+      bool const previous = accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      return (! csbl::get<i-1>(t).run_if_is_deferred()) || previous;
     }
   };
   template <class Tuple>
-- 
2.43.0


From 6f010be27af2e9ff81232ce39b3a0c2e74bf601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 35/59] fix: when_any(futures...): check the inputs in the
 order supplied

---
 include/boost/thread/future.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2cf3dd0..cbde3d9 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5914,8 +5914,9 @@ namespace detail
   struct apply_any_run_if_is_deferred_or_ready {
     bool operator ()(Tuple& t)
     {
-      if (csbl::get<i-1>(t).run_if_is_deferred_or_ready()) return true;
-      return apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t);
+      // in the order in which the futures were supplied
+      if (apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t)) return true;
+      return csbl::get<i-1>(t).run_if_is_deferred_or_ready();
     }
   };
   template <class Tuple>
-- 
2.43.0


From 257818beaedade69eebdadb33404e6025c894409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 36/59] fix: synchronized_value: comparing an object with
 itself locked its mutex twice

---
 include/boost/thread/synchronized_value.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..c27f2f1 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,10 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ == value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +856,10 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ < value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +872,10 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ > value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +884,10 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ <= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +896,10 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ >= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From d72728523508ffde2532604f5807d62c4f9de589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 37/59] fix: basic_thread_pool: destruction of the pool lost
 accepted closures when a worker was interrupted while idle

---
 include/boost/thread/executors/basic_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..bbd73df 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -98,7 +98,8 @@ namespace executors
           }
           catch (boost::thread_interrupted&)
           {
-            return;
+            // A closed pool (in particular one being destroyed) works until there are no more closures to run.
+            if (! closed()) return;
           }
         }
       }
-- 
2.43.0


From b9d1b45fa276a37c16eccbf963211e18909d34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 38/59] fix: serial_executor_cont: destructor waits for the
 completion of its closures, as documented

---
 include/boost/thread/executors/serial_executor_cont.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..32196da 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,11 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // wait until the last closure, and so all of them, has completed.
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption no_interruption;
+#endif
+      if (fut_.valid()) fut_.wait();
     }
 
     /**
-- 
2.43.0


From 1702bc7b2c07a6d18130a42a51cc8e93398c2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 39/59] fix: basic_thread_pool: joining an already joined pool
 (also by its destructor) raised thread_resource_error

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index bbd73df..aca01ed 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -245,7 +245,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         //threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
@@ -268,7 +268,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
-- 
2.43.0


From 2c9a5c209685a86c0cab89d401295e102e1cb42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 40/59] fix: generic_executor_ref: a copy referred to its
 source instead of the executor

---
 include/boost/thread/executors/generic_executor_ref.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/generic_executor_ref.hpp b/include/boost/thread/executors/generic_executor_ref.hpp
index abe7da4..0edd335 100644
--- a/include/boost/thread/executors/generic_executor_ref.hpp
+++ b/include/boost/thread/executors/generic_executor_ref.hpp
@@ -15,6 +15,8 @@
 #include <boost/thread/executors/executor.hpp>
 
 #include <boost/shared_ptr.hpp>
+#include <boost/core/enable_if.hpp>
+#include <boost/type_traits/is_same.hpp>
 
 #include <boost/config/abi_prefix.hpp>
 
@@ -99,7 +101,8 @@ namespace boost
     typedef executors::work work;
 
     template<typename Executor>
-    generic_executor_ref(Executor& ex_)
+    generic_executor_ref(Executor& ex_,
+        typename disable_if<is_same<Executor, generic_executor_ref>, int* >::type=0) // a copy is not a reference to its source
     //: ex(make_shared<executor_ref<Executor> >(ex_)) // todo check why this doesn't works with C++03
     : ex( new executor_ref<Executor>(ex_) )
     {
-- 
2.43.0


From fc9f8615860e90b4a2208f18e094f5f0e986738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 41/59] fix: thread_executor: its mutex was destroyed before
 the threads whose closures still use it

---
 include/boost/thread/executors/thread_executor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..60e2a40 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -38,8 +38,9 @@ namespace executors
     bool closed_;
     typedef scoped_thread<> thread_t;
     typedef csbl::vector<thread_t> threads_type;
-    threads_type threads_;
+    // declared before threads_: the closures joined when threads_ is destroyed can still use the executor
     mutable mutex mtx_;
+    threads_type threads_;
 
     /**
      * Effects: try to execute one task.
-- 
2.43.0


From 63118015b84fa2090b4b68d75679750723a4fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 42/59] fix: basic_thread_pool: a constructor that failed to
 start a thread left the started ones on a destroyed queue

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index aca01ed..bd6f86c 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -183,6 +184,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -202,6 +204,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -221,6 +224,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
-- 
2.43.0


From 6d419ba3c643accce52beddee7e79c7aa962f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 43/59] fix: scheduler: an lvalue closure submitted on another
 executor was moved from

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From ef7b92483938f15faa083b6e6d7b8bf3770d010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 44/59] fix: destroying an executor in a thread with an
 interruption pending called std::terminate

---
 include/boost/thread/executors/basic_thread_pool.hpp     | 4 ++++
 include/boost/thread/executors/scheduled_thread_pool.hpp | 4 ++++
 include/boost/thread/executors/scheduler.hpp             | 4 ++++
 include/boost/thread/executors/scheduling_adaptor.hpp    | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index bd6f86c..55d9b91 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -235,6 +235,10 @@ namespace executors
      */
     ~basic_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       // signal to all the worker threads that there will be no more submissions.
       close();
       // joins all the threads before destroying the thread pool resources (e.g. the queue).
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..a953edc 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -34,6 +34,10 @@ namespace executors
 
     ~scheduled_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _workers.interrupt_all();
       _workers.join_all();
diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 1d244b7..7a7e8c7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -236,6 +236,10 @@ namespace boost
 
       ~scheduler()
       {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        // exceptions from a destructor call std::terminate
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         this->close();
         thr.interrupt();
         thr.join();
diff --git a/include/boost/thread/executors/scheduling_adaptor.hpp b/include/boost/thread/executors/scheduling_adaptor.hpp
index 9a432f9..604c1db 100644
--- a/include/boost/thread/executors/scheduling_adaptor.hpp
+++ b/include/boost/thread/executors/scheduling_adaptor.hpp
@@ -37,6 +37,10 @@ namespace executors
 
     ~scheduling_adaptor()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _scheduler.interrupt();
       _scheduler.join();
-- 
2.43.0


From d17f4429ed9eba4752076ba5f62aba7b39f10e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 45/59] fix: task_region: run() of an lvalue task did not
 compile or kept a reference to the caller's object

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..f887981 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -87,7 +87,9 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
     {
       TRH& tr;
       F f;
-      wrapped(TRH& tr, BOOST_THREAD_RV_REF(F) f) : tr(tr), f(move(f))
+      wrapped(TRH& tr, BOOST_THREAD_RV_REF(F) f) : tr(tr), f(boost::move(f))
+      {}
+      wrapped(TRH& tr, F const& f) : tr(tr), f(f)
       {}
       void operator()()
       {
@@ -215,9 +217,9 @@ protected:
         }
       }
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-      group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+      group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, typename decay<F>::type>(*this, forward<F>(f))));
 #else
-      group.push_back(async(detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+      group.push_back(async(detail::wrapped<task_region_handle_gen<Executor>, typename decay<F>::type>(*this, forward<F>(f))));
 #endif
 #else
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-- 
2.43.0


From a7bf81003ed49f06582ae5a277f92e83cf400fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 46/59] fix: task_region: exceptions reported by wait() were
 reported again at the end of the region

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index f887981..5a7c1c0 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -145,9 +145,13 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
           }
         }
       }
+      group.clear();
       if (exs.size() != 0)
       {
-        boost::throw_exception(exs);
+        // report each exception once: what is thrown here must not be thrown again by the next wait
+        exception_list errors(exs);
+        exs = exception_list();
+        boost::throw_exception(errors);
       }
     }
 protected:
-- 
2.43.0


From de9d0b14b30f29fc82de656258cb3ee76e7e7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 47/59] fix: task_region: an interrupted thread left the region
 while its tasks were running

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index 5a7c1c0..b2b501e 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -286,6 +286,10 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+    // the tasks refer to the region
+    this_thread::disable_interruption di;
+#endif
     tr.wait_all();
   }
 
@@ -307,6 +311,10 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+    // the tasks refer to the region
+    this_thread::disable_interruption di;
+#endif
     tr.wait_all();
   }
 
-- 
2.43.0


From e454bdf86454a6fd7dd4d31c9a4fd8b868aaa1db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 48/59] fix: loop_executor::run_queued_closures: a throwing
 closure dropped the remaining ones instead of calling std::terminate

---
 include/boost/thread/executors/loop_executor.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/loop_executor.hpp b/include/boost/thread/executors/loop_executor.hpp
index e7382ef..c0fb541 100644
--- a/include/boost/thread/executors/loop_executor.hpp
+++ b/include/boost/thread/executors/loop_executor.hpp
@@ -196,7 +196,14 @@ namespace executors
       while (! q.empty())
       {
         work& task = q.front();
-        task();
+        try
+        {
+          task();
+        }
+        catch (...)
+        {
+          std::terminate();
+        }
         q.pop_front();
       }
     }
-- 
2.43.0


From 05d160387747edb5315488e1b0774df017522ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 49/59] fix: scheduled_thread_pool: a constructor that failed
 to start a thread left the started ones on a destroyed queue

---
 .../thread/executors/scheduled_thread_pool.hpp  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index a953edc..ad50f8a 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,22 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
+        // the threads already started use the queue that is about to be destroyed
+        this->close();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From 8322cb1d35d82dbedcb4dd6cd1087a88746b5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 50/59] fix: notify_all_at_thread_exit: the mutex stayed locked
 for ever when the registration ran out of memory

---
 src/pthread/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 3368b90..97cf80c 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -812,7 +812,8 @@ namespace boost
         detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
+            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+            lk.release();
         }
     }
 
-- 
2.43.0


From b374e3acb35c59d1d3e670de61fee2c3238741d4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 51/59] fix: thread_group::create_thread: running out of memory
 left a started thread outside of the group

---
 include/boost/thread/detail/thread_group.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..26ea852 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,8 +76,11 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
+            // allocate the node first: nothing can fail once the thread has been started
+            std::list<thread*> node(1, static_cast<thread*>(0));
             boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
+            node.front() = new_thread.get();
+            threads.splice(threads.end(), node);
             return new_thread.release();
         }
 
-- 
2.43.0


From 4aa206098d28f656af573bb131b0a4c2fb98a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 52/59] fix: at_thread_exit: the function leaked when its
 registration ran out of memory

---
 include/boost/thread/detail/thread.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index a1bfe64..cc0fc03 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -25,6 +25,7 @@
 #include <boost/thread/detail/make_tuple_indices.hpp>
 #include <boost/thread/detail/invoke.hpp>
 #include <boost/thread/detail/is_convertible.hpp>
+#include <boost/thread/csbl/memory/unique_ptr.hpp>
 #include <boost/assert.hpp>
 #include <list>
 #include <algorithm>
@@ -853,8 +854,9 @@ namespace boost
         template<typename F>
         void at_thread_exit(F f)
         {
-            detail::thread_exit_function_base* const thread_exit_func=detail::heap_new<detail::thread_exit_function<F> >(f);
-            detail::add_thread_exit_function(thread_exit_func);
+            csbl::unique_ptr<detail::thread_exit_function_base> thread_exit_func(detail::heap_new<detail::thread_exit_function<F> >(f));
+            detail::add_thread_exit_function(thread_exit_func.get());
+            thread_exit_func.release();
         }
     }
 }
-- 
2.43.0


From 6e2cf330e2927ab3005ed0c623ded8b4d3653a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 53/59] fix: set_value/set_exception_at_thread_exit: a failed
 registration left the promise satisfied but never ready

---
 include/boost/thread/future.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index cbde3d9..19c5082 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -475,6 +475,18 @@ namespace boost
               exception=e;
               this->is_constructed = true;
             }
+            // the deferred result set before is taken back when it can not be registered
+            void make_ready_at_thread_exit()
+            {
+              try {
+                detail::make_ready_at_thread_exit(shared_from_this());
+              } catch (...) {
+                unique_lock<boost::mutex> lk(this->mutex);
+                exception = exception_ptr();
+                this->is_constructed = false;
+                throw;
+              }
+            }
             void set_exception_at_thread_exit(exception_ptr e)
             {
               set_exception_deferred(e);
@@ -485,7 +497,7 @@ namespace boost
 //              }
 //              exception=e;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              make_ready_at_thread_exit();
             }
 
             bool has_value() const
@@ -730,7 +742,7 @@ namespace boost
 //#endif
 //
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              make_ready_at_thread_exit();
             }
             void set_value_at_thread_exit(rvalue_source_type result_)
             {
@@ -753,7 +765,7 @@ namespace boost
 //#endif
 //#endif
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              make_ready_at_thread_exit();
             }
 
         private:
@@ -836,7 +848,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              result= &result_;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              make_ready_at_thread_exit();
             }
 
         private:
@@ -910,7 +922,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              }
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              make_ready_at_thread_exit();
             }
         private:
             shared_state(shared_state const&);
-- 
2.43.0


From 08b18d0023461ec0127f4beb81ed784dfb0e2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 54/59] fix: a continuation that could not be started left its
 future never ready and threw out of the setter of the antecedent

---
 include/boost/thread/future.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 19c5082..7173436 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -305,11 +305,15 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock) \
             { \
                 if (! this->continuations.empty()) { \
-                  continuations_type the_continuations = this->continuations; \
-                  this->continuations.clear(); \
+                  continuations_type the_continuations; \
+                  the_continuations.swap(this->continuations); \
                   relocker rlk(lock); \
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) { \
-                    (*it)->launch_continuation(); \
+                    try { \
+                      (*it)->launch_continuation(); \
+                    } catch (...) { \
+                      (*it)->mark_launch_failure(); \
+                    } \
                   } \
                 } \
             }
@@ -343,6 +347,12 @@ namespace boost
                 }
                 do_continuation(lock);
             }
+            // the continuation can not be started: its future gets the reason
+            void mark_launch_failure()
+            {
+              boost::unique_lock<boost::mutex> lock(this->mutex);
+              if (!done) mark_exceptional_finish_internal(boost::current_exception(), lock);
+            }
             void notify_deferred()
             {
               boost::unique_lock<boost::mutex> lock(this->mutex);
-- 
2.43.0


From 4242bf9355470366a8fc7dca5f0f393a8011d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 55/59] fix: a future of an asynchronous operation that failed
 to start blocked for ever in its destructor

---
 include/boost/thread/future.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7173436..af4f92d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -960,7 +960,9 @@ namespace boost
           }
 #endif
         public:
-          future_async_shared_state_base()
+          bool started_; // whether an asynchronous operation that makes the state ready has been started
+
+          future_async_shared_state_base() : started_(false)
           {
             this->set_async();
           }
@@ -970,8 +972,11 @@ namespace boost
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
 #elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
-            unique_lock<boost::mutex> lk(this->mutex);
-            this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
+            if (started_)
+            {
+              unique_lock<boost::mutex> lk(this->mutex);
+              this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
+            }
 #endif
           }
 
@@ -1003,6 +1008,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f)).detach();
+            this->started_ = true;
 #endif
           }
 
@@ -1028,6 +1034,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+            this->started_ = true;
 #endif
           }
 
@@ -1054,6 +1061,7 @@ namespace boost
             this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
             boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+            this->started_ = true;
 #endif
           }
 
@@ -4748,6 +4756,7 @@ namespace detail
       this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
       boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      this->started_ = true;
 #endif
     }
   };
@@ -4876,6 +4885,7 @@ namespace detail {
       this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
       boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      this->started_ = true;
 #endif
     }
   };
@@ -5737,6 +5747,7 @@ namespace detail
       this->thr_ = boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this());
 #else
       boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this()).detach();
+      this->started_ = true;
 #endif
     }
 
@@ -5808,6 +5819,7 @@ namespace detail
       this->thr_ = boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this());
 #else
       boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this()).detach();
+      this->started_ = true;
 #endif
     }
 
@@ -5917,6 +5929,7 @@ namespace detail
       this->thr_ = boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this());
 #else
       boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this()).detach();
+      this->started_ = true;
 #endif
 
     }
@@ -5989,6 +6002,7 @@ namespace detail
       this->thr_ = boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this());
 #else
       boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this()).detach();
+      this->started_ = true;
 #endif
     }
 
-- 
2.43.0


From 18dd3596be4382e3d4fea4c2cff75dc4664b6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 56/59] fix: get_xtime gave a negative nanosecond field for
 times before 1970

---
 include/boost/thread/xtime.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/xtime.hpp b/include/boost/thread/xtime.hpp
index d04a0d9..084da50 100644
--- a/include/boost/thread/xtime.hpp
+++ b/include/boost/thread/xtime.hpp
@@ -64,6 +64,12 @@ inline ::boost::xtime get_xtime(boost::system_time const& abs_time)
 
     res.sec=static_cast< ::boost::xtime::xtime_sec_t>(time_since_epoch.total_seconds());
     res.nsec=static_cast< ::boost::xtime::xtime_nsec_t>(time_since_epoch.fractional_seconds()*(1000000000/time_since_epoch.ticks_per_second()));
+    if (res.nsec < 0)
+    {
+        // nsec must never be negative
+        --res.sec;
+        res.nsec += 1000000000;
+    }
     return res;
 }
 
-- 
2.43.0


From cad8f128e08d228aee3286ccf008d77a4b623327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 57/59] fix: infinite posix_time durations and times were taken
 for arbitrary (mostly elapsed) timeouts

---
 include/boost/thread/detail/platform_time.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c74da56..f18dd83 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -151,6 +151,14 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_USES_DATETIME
       platform_duration(boost::posix_time::time_duration const& rel_time)
       {
+        if (rel_time.is_special())
+        {
+          // The fields of a special value are meaningless. Infinities are half of the range
+          // (146 years), so that adding them to the current time doesn't overflow.
+          boost::time_max_t const inf = (std::numeric_limits<boost::time_max_t>::max)() / 2;
+          *this = platform_duration(rel_time.is_pos_infinity() ? inf : rel_time.is_neg_infinity() ? -inf : 0);
+          return;
+        }
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
-- 
2.43.0


From c25a36e6c554d1c51a915e551533b1d3e593fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 58/59] fix: the destructors of the polymorphic lockables were
 not defined, so that their adapters could not be used

---
 include/boost/thread/poly_lockable.hpp        | 3 +++
 include/boost/thread/poly_shared_lockable.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/boost/thread/poly_lockable.hpp b/include/boost/thread/poly_lockable.hpp
index 751d8ae..310222a 100644
--- a/include/boost/thread/poly_lockable.hpp
+++ b/include/boost/thread/poly_lockable.hpp
@@ -28,6 +28,7 @@ namespace boost
     virtual void unlock() = 0;
 
   };
+  inline basic_poly_lockable::~basic_poly_lockable() {}
   //]
 
   // A proper name for basic_poly_lockable, consistent with naming scheme of other polymorphic wrappers
@@ -41,6 +42,7 @@ namespace boost
     virtual ~poly_lockable() = 0;
     virtual bool try_lock() = 0;
   };
+  inline poly_lockable::~poly_lockable() {}
   //]
 
   //[timed_poly_lockable
@@ -65,6 +67,7 @@ namespace boost
     }
 
   };
+  inline timed_poly_lockable::~timed_poly_lockable() {}
   //]
 
   // A proper name for timed_poly_lockable, consistent with naming scheme of other polymorphic wrappers
diff --git a/include/boost/thread/poly_shared_lockable.hpp b/include/boost/thread/poly_shared_lockable.hpp
index 869017b..d6fcef8 100644
--- a/include/boost/thread/poly_shared_lockable.hpp
+++ b/include/boost/thread/poly_shared_lockable.hpp
@@ -44,6 +44,7 @@ namespace boost
     }
 
   };
+  inline shared_poly_lockable::~shared_poly_lockable() {}
   //]
 
   // A proper name for shared_poly_lockable, consistent with naming scheme of other polymorphic wrappers
@@ -131,6 +132,7 @@ namespace boost
     virtual void unlock_upgrade_and_lock_shared() = 0;
 
   };
+  inline upgrade_poly_lockable::~upgrade_poly_lockable() {}
   //]
 
   // A proper name for upgrade_poly_lockable, consistent with naming scheme of other polymorphic wrappers
-- 
2.43.0


From 7682a489cff5c91c969ff7ce88f5ca5fcf3feda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 59/59] fix: BOOST_THREAD_DONT_PROVIDE_BASIC_THREAD_ID did not
 compile on POSIX

---
 include/boost/thread/detail/thread.hpp       | 2 +-
 include/boost/thread/pthread/thread_data.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index cc0fc03..b92285f 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -751,7 +751,7 @@ namespace boost
         #if defined BOOST_THREAD_PROVIDES_BASIC_THREAD_ID
              return pthread_self();
         #else
-            boost::detail::thread_data_base* const thread_info=get_or_make_current_thread_data();
+            boost::detail::thread_data_base* const thread_info=boost::detail::get_or_make_current_thread_data();
             return (thread_info?thread::id(thread_info->shared_from_this()):thread::id());
         #endif
         }
diff --git a/include/boost/thread/pthread/thread_data.hpp b/include/boost/thread/pthread/thread_data.hpp
index c43b276..68123c4 100644
--- a/include/boost/thread/pthread/thread_data.hpp
+++ b/include/boost/thread/pthread/thread_data.hpp
@@ -181,6 +181,7 @@ namespace boost
         };
 
         BOOST_THREAD_DECL thread_data_base* get_current_thread_data();
+        BOOST_THREAD_DECL thread_data_base* get_or_make_current_thread_data();
 
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
         class interruption_checker
-- 
2.43.0

