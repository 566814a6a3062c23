From 62ffd45d62f201e4b02c4228cfa1f9cb38927e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 01/47] fix: capacity check of multi producer sequencer
 truncated the cursor to 32 bits

---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..49f4b61 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -230,7 +230,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 7bb4576cfd8aa3f8d38cefb953ee815213ecc048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 02/47] fix: availability flags of multi producer sequencer are
 published with atomic release stores

---
 .../disruptor4cpp/multi_producer_sequencer.h          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 49f4b61..c338074 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,8 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_)
+            flag.store(-1, std::memory_order_relaxed);
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +210,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +248,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +262,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 172c415ede283fc1f6d4ed5c729135608566d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 03/47] fix: lite blocking wait strategy could lose a wake-up
 between waiter and publisher

---
 .../wait_strategies/lite_blocking_wait_strategy.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..7980b5f 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,7 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                signal_needed_.exchange(true, std::memory_order_acq_rel);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
@@ -91,7 +91,7 @@ public:
 
     void signal_all_when_blocking()
     {
-        if (signal_needed_.exchange(false, std::memory_order_release)) {
+        if (signal_needed_.exchange(false, std::memory_order_acq_rel)) {
             std::lock_guard<std::recursive_mutex> lock(mutex_);
             processor_notify_condition_.notify_all();
         }
-- 
2.43.0


From e7e5efc4ad306df8b8a31629dd936150ea239402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 04/47] fix: halting a no-op event processor did not wake it
 while waiting

---
 .../high_performance/disruptor4cpp/no_op_event_processor.h  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..af78866 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,11 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
-- 
2.43.0


From 314a9d255caaac54255ce09c791afaf8dbc21dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 05/47] fix: halt issued before the event processor cleared the
 alert was lost

---
 .../high_performance/disruptor4cpp/batch_event_processor.h      | 2 +-
 .../high_performance/disruptor4cpp/no_op_event_processor.h      | 2 +-
 .../klepsydra/high_performance/disruptor4cpp/sequence_barrier.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..656ae9d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -112,7 +112,7 @@ public:
         typename TRingBuffer::event_type *event = nullptr;
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index af78866..5dd6123 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -101,7 +101,7 @@ public:
         sequence_barrier_.clear_alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
index c56db6d..cab8177 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
@@ -102,7 +102,7 @@ public:
         wait_strategy_.signal_all_when_blocking();
     }
 
-    void clear_alert() { alerted_.store(false, std::memory_order_release); }
+    void clear_alert() { alerted_.exchange(false, std::memory_order_acq_rel); }
 
     void check_alert() const
     {
-- 
2.43.0


From 3f0c80074869413550fe8705246f0caee71dc61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 06/47] fix: batch event processor stayed running after a
 failing start or shutdown handler

---
 .../disruptor4cpp/batch_event_processor.h              | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 656ae9d..c99350d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -105,6 +105,7 @@ public:
         bool expected_running_state = false;
         if (!running_.compare_exchange_strong(expected_running_state, true))
             throw std::runtime_error("Thread is already running");
+        running_guard guard{running_};
 
         sequence_barrier_.clear_alert();
         notify_start();
@@ -148,14 +149,19 @@ public:
         } catch (...) {
             spdlog::debug("kpsr::high_perf::batch_event_processor. notify_shutdown on {}.", name_);
             notify_shutdown();
-            running_.store(false, std::memory_order_release);
             throw;
         }
         notify_shutdown();
-        running_.store(false, std::memory_order_release);
     }
 
 private:
+    // Clears the running state on every way out of run().
+    struct running_guard
+    {
+        std::atomic<bool> &running;
+        ~running_guard() { running.store(false, std::memory_order_release); }
+    };
+
     void notify_timeout(int64_t available_sequence)
     {
         try {
-- 
2.43.0


From ca002e4aa70cbba59bd55e4b5a4f39c93979ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 07/47] fix: ring buffer accepted a size of zero as a power of
 two

---
 .../klepsydra/high_performance/disruptor4cpp/ring_buffer.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/ring_buffer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/ring_buffer.h
index 0551d9d..27e492b 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/ring_buffer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/ring_buffer.h
@@ -68,7 +68,7 @@ class ring_buffer
 public:
     static_assert(std::is_default_constructible<TEvent>::value,
                   "Event type must be default constructible");
-    static_assert((BufferSize & (~BufferSize + 1)) == BufferSize,
+    static_assert(BufferSize > 0 && (BufferSize & (~BufferSize + 1)) == BufferSize,
                   "Ring buffer size must be a power of 2");
 
     typedef TEvent event_type;
-- 
2.43.0


From 92a33d15e638fd99c632a7e428ecc2db337cc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 08/47] fix: unsupported queries of the object pool did not
 compile

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..31e7226 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -128,13 +128,13 @@ public:
     /*!
      * @brief empty
      */
-    bool empty() const { throw std::exception("Unsupported operation."); }
+    bool empty() const { throw std::runtime_error("Unsupported operation."); }
 
     /*!
      * @brief size
      * @return
      */
-    size_t size() const { throw std::exception("Unsupported operation."); }
+    size_t size() const { throw std::runtime_error("Unsupported operation."); }
 
     /*!
      * @brief objectPoolFails
-- 
2.43.0


From 5abff81427c22eb0d72cf2a0564bd7d66f8692ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 09/47] fix: lock free stack accepted capacities its 16 bit
 indexes cannot represent

---
 .../modules/core/include/klepsydra/core/lock_free_stack.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..642af18 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -18,8 +18,10 @@
 #define LOCK_FREE_STACK_H
 
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 namespace kpsr {
@@ -29,8 +31,6 @@ class LockFreeStack
 {
     static const int UNDEF_INDEX = 65535;
 
-    // TODO see if constructor should throw if requested capacity is > (UNDEF_INDEX - 1)
-
     struct node_t final
     {
         uint16_t index_next;
@@ -66,6 +66,10 @@ class LockFreeStack
 public:
     LockFreeStack(size_t capacity, std::function<void(T &)> initFunction)
     {
+        // node indexes are 16 bits long and UNDEF_INDEX is not one of them.
+        if (capacity == 0 || capacity > UNDEF_INDEX) {
+            throw std::invalid_argument("LockFreeStack: capacity must be between 1 and 65535.");
+        }
         size_t realCapacity = capacity;
         free_nodes.store(head_t(), std::memory_order_relaxed);
         // preallocate nodes
-- 
2.43.0


From 8d9412f7d7fd9ca1a4ca0f975e8bb38dc18a8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 10/47] fix: timed pops of the safe queue read an empty queue
 after a wake-up another consumer used

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..c46be4e 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +317,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From fd59369ac4d79199db42f40c666c876da69bdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 11/47] fix: blocking pushes of an unlimited safe queue never
 returned and its limit was changed without the lock

---
 .../include/klepsydra/mem_core/safe_queue.h     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index c46be4e..492855d 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -77,7 +77,13 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        // the queue may not be full any more
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
@@ -89,7 +95,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +112,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +129,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
@@ -416,6 +422,9 @@ public:
     }
 
 private:
+    // No limit when m_max_num_items is 0. To be called with the mutex held.
+    bool is_full() const { return m_max_num_items > 0 && m_queue.size() >= m_max_num_items; }
+
     std::queue<T, Container> m_queue;
     mutable std::mutex m_mutex;
     std::condition_variable m_non_empty_condition;
-- 
2.43.0


From 841c4d4268c6c62a0f794f49bfacb03fa0141446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 12/47] fix: whole safe queue operations could deadlock, lost
 the limit and left blocked pushers asleep

---
 .../include/klepsydra/mem_core/safe_queue.h   | 39 ++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 492855d..e0bcdac 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
@@ -373,8 +380,9 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             m_queue.swap(sq.m_queue);
 
             if (!m_queue.empty())
@@ -382,6 +390,9 @@ public:
 
             if (!sq.m_queue.empty())
                 sq.m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
     }
 
@@ -393,13 +404,16 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
         }
 
         return *this;
@@ -412,11 +426,18 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
+            m_queue = std::move(sq.m_queue);
+
+            if (!m_queue.empty())
+                m_non_empty_condition.notify_all();
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
+        }
 
         return *this;
     }
-- 
2.43.0


From 5047597b7738d59e72a5467fb826491078cee8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 13/47] fix: stopping an in memory poller whose thread was
 still starting never returned

start() gives up when the polling thread is not running in time. When stop() or
the destructor then ran before the thread did, the thread set _running again
and the join never returned. The loop now also checks _started, which is cleared first.
---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..4f79e00 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -39,17 +39,20 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    // The thread might only now be starting: it must see that it is not wanted any more.
+    _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
+    _running.store(false, std::memory_order_release);
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
-    _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
 {
+    _started = false;
     _running = false;
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
@@ -59,7 +62,7 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
-    while (isRunning()) {
+    while (isStarted() && isRunning()) {
         takeEventFromQueue();
     }
 }
-- 
2.43.0


From 504d6dd7d2bbac5c1ccc93c56a0eeed74f21d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 14/47] fix: queue pollers were destroyed while their polling
 thread was using them

The base class destructor joins the thread, but by then the derived part is
gone and the thread calls a pure virtual function. The derived pollers stop
the thread first.
---
 .../include/klepsydra/mem_core/concurrent_queue_poller.h       | 3 +++
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..fc3c754 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,9 @@ public:
         , _token(token)
     {}
 
+    // The polling thread uses this object: it has to end before any part of it is destroyed.
+    ~ConcurrentQueuePoller() override { stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..4d045a9 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,9 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    // The polling thread uses this object: it has to end before any part of it is destroyed.
+    ~SafeQueuePoller() override { stop(); }
+
 private:
     void takeEventFromQueue() override
     {
-- 
2.43.0


From 1727787d691ec9a5f51598d3f42efa7d5eadca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 15/47] fix: closing a socket reported failures as success and
 closed descriptors twice

---
 core/modules/socket_mdlw/src/base_socket.cpp | 46 ++++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..4aa0b8e 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,30 +58,30 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
-        switch (errno) {
-        case EBADF:
-            throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
-        case EIO:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
-        case EINTR: {
-            // TODO: Check for user interrupt flags.
-            //       Beyond the scope of this project
-            //       so continue normal operations.
-            break;
-        }
-        default:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
-        }
-    }
+    // The descriptor is gone whatever ::close reports, so it is never closed a second time: it may
+    // already belong to someone else.
+    int const closedSocket = socketId;
     socketId = invalidSocketId;
+    if (::close(closedSocket) == 0) {
+        return;
+    }
+    switch (errno) {
+    case EBADF:
+        throw std::domain_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EBADF: ", closedSocket, " ", std::strerror(errno)));
+    case EIO:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EIO:  ", closedSocket, " ", std::strerror(errno)));
+    case EINTR: {
+        // TODO: Check for user interrupt flags.
+        //       Beyond the scope of this project
+        //       so continue normal operations.
+        break;
+    }
+    default:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: ???:  ", closedSocket, " ", std::strerror(errno)));
+    }
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
-- 
2.43.0


From ff8b1e30458868d8fb2d44c8f6ffa9d40e18957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 16/47] fix: descriptor 0 was refused by the socket reader, a
 moved socket was not

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From bba34da42d994e27e0ec496760de70790de1cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 17/47] fix: waiting on a server socket with a descriptor
 beyond FD_SETSIZE corrupted the stack

---
 core/modules/socket_mdlw/src/server_socket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 31bcae1..ecb0358 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -79,6 +79,11 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
                               ": accept called on a bad socket object (this object was moved)"));
     }
 
+    if (getSocketId() >= FD_SETSIZE) {
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": accept: descriptor too large for select"));
+    }
+
     struct timeval tv;
     fd_set readfds;
 
-- 
2.43.0


From 32fde5e7775b6f6239313f9591ce36976103ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 18/47] fix: run one-off state actions only once when an action
 re-enters the state

The list was erased after the actions had run, so an action that brought the
machine back to the same state (or threw) ran again, and one-off actions
added by an action were iterated unsafely and then dropped.
---
 .../modules/state_machine/src/state_machine_listener.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..061e047 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -55,11 +55,14 @@ void StateMachineListener::removeActions()
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
     if (stateChanged) {
-        if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+        auto oneOff = _oneOffActions.find(currentStateId);
+        if (oneOff != _oneOffActions.end()) {
+            // Removed before they run: an action may enter this state again or add a new action.
+            auto actions = std::move(oneOff->second);
+            _oneOffActions.erase(oneOff);
+            for (auto action : actions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
         if (_actions.find(currentStateId) != _actions.end()) {
             for (auto action : _actions[currentStateId]) {
-- 
2.43.0


From 43c8f1a5e566556e207968680dbb4bdc7c4b8411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 19/47] fix: let state actions and observers change the lists
 they are called from

A periodic action that removed itself, or an observer that registered another
one, invalidated the iterators of the running loop.
---
 .../modules/state_machine/src/state_machine_impl.cpp       | 4 +++-
 .../modules/state_machine/src/state_machine_listener.cpp   | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..c1c38cb 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,7 +74,9 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
+    // A copy: an observer may register or unregister observers.
+    auto observers = _observers;
+    for (auto observer : observers) {
         observer(_id + ":" + stateId, stateChanged);
     }
 }
diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 061e047..2fc3d3a 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -65,13 +65,16 @@ void StateMachineListener::updateCurrentState(const std::string &currentStateId,
             }
         }
         if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+            // A copy: an action may add or remove actions of this state.
+            auto actions = _actions[currentStateId];
+            for (auto action : actions) {
                 action(currentStateId);
             }
         }
     }
     if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+        auto actions = _periodicActions[currentStateId];
+        for (auto action : actions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From 758cff0100e9cd2aa66a2249b8d409d93cc6439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 20/47] fix: the byte mapper header disabled the identity
 mapper header by sharing its guard

---
 .../include/klepsydra/serialization/void_caster_mapper.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..4cd414e 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,8 +14,8 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
@@ -62,4 +62,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From e91bf34e14433e9549214d4bd2c9681c45704667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 21/47] fix: the byte mapper read beyond the end of messages
 shorter than the event

---
 .../include/klepsydra/serialization/void_caster_mapper.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 4cd414e..aadda30 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::invalid_argument("Message is too short for the event type");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
-- 
2.43.0


From e3951eaafc6620eb42918954eba21c5e4c832cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 22/47] fix: malformed hexadecimal configuration values were
 accepted

---
 core/modules/core/include/klepsydra/core/prop_file_convert.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index d4c9a40..f3d34b7 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -45,8 +45,9 @@ public:
             if (!(iss >> returnVal))
                 throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
                                             " received!\n");
-        } else {
-            iss >> std::hex >> returnVal;
+        } else if (!(iss >> std::hex >> returnVal)) {
+            throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
+                                        " received!\n");
         }
 
         return returnVal;
-- 
2.43.0


From 990d37782258ebd82d7fd2d9f4f3038395d300e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 23/47] fix: text values of property files were cut at the
 first blank

---
 .../core/include/klepsydra/core/prop_file_convert.h        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index f3d34b7..a53d6dd 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -53,6 +53,13 @@ public:
         return returnVal;
     }
 };
+
+// Strings are taken as they are: extracting from a stream would stop at the first blank.
+template<>
+inline std::string PropertyFileConvert::string_to_T<std::string>(const std::string &val)
+{
+    return val;
+}
 } // namespace kpsr
 
 #endif
-- 
2.43.0


From 1b8f8ddae2b879e7ba96288df85e9b65006adc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 24/47] fix: setting an existing dynamic property kept its old
 value

---
 .../core/include/klepsydra/core/configuration_properties.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..9bf23ef 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -57,6 +57,8 @@ public:
                 return false;
             } else {
                 spdlog::debug("Overwriting old data with new value");
+                it->second = std::make_shared<Property<T>>(propertyValue);
+                return true;
             }
         }
         auto insertionResult = _properties.insert(
-- 
2.43.0


From 13be44ed0e6daceb709806c7018bece2b7820100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 25/47] fix: one property that could not be copied kept all
 properties of the following types from being loaded

---
 core/modules/core/src/configuration_environment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..d2829f7 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -144,12 +144,12 @@ bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnv
                                         const std::string &rootNode)
 {
     bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode) &&
+                 copyResult;
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) &&
+                 copyResult;
     return copyResult;
 }
 
-- 
2.43.0


From 45d10aef46de9a39d75aac3e0c9a4fe11f540658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 26/47] fix: default constructed sensors had an uninitialised
 sequence number

---
 core/modules/core/include/klepsydra/core/sensor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/modules/core/include/klepsydra/core/sensor.h b/core/modules/core/include/klepsydra/core/sensor.h
index 486ee14..3db60b4 100644
--- a/core/modules/core/include/klepsydra/core/sensor.h
+++ b/core/modules/core/include/klepsydra/core/sensor.h
@@ -43,6 +43,7 @@ public:
      * @brief Sensor
      */
     Sensor()
+        : seq(0)
     {
         std::chrono::milliseconds ms = std::chrono::duration_cast<std::chrono::milliseconds>(
             std::chrono::system_clock::now().time_since_epoch());
-- 
2.43.0


From db3b2ebd284a25c8284f810902b2933e947bee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 27/47] fix: default constructed ZMQ environment data had an
 uninitialised source id

---
 .../include/klepsydra/zmq_core/zmq_environment_data.h         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h
index c763332..67e42e0 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h
@@ -55,7 +55,9 @@ public:
     /**
      * @brief ZMQEnvironmentData
      */
-    ZMQEnvironmentData() {}
+    ZMQEnvironmentData()
+        : _sourceId(0)
+    {}
 
     /**
      * @brief ZMQEnvironmentData
-- 
2.43.0


From 9cfe6345f35bb11873c231123213193fa75214c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 28/47] fix: SafeEventEmitter reads its listeners under its
 mutex and detaches only statistics that exist

---
 .../core/include/klepsydra/core/safe_event_emitter.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..a073642 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -146,7 +146,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -176,6 +176,8 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
+
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -189,9 +191,13 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
+
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
-                container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                if (subscriberListenerBasePair.second->listenerStats) {
+                    container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                }
             }
         }
         // clear the map
-- 
2.43.0


From 1700f18f39445a605f9aa26b87909153143dbd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 29/47] fix: A one-time listener of SafeEventEmitter runs once
 when events are emitted from several threads or from the listener

---
 .../klepsydra/core/safe_event_emitter.h       | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index a073642..0f2dc49 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -132,10 +132,11 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
+            // Removed before it runs: another thread or the callback itself may emit as well.
+            if (h->isOnce && !takeListener(h->id)) {
+                continue;
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -248,6 +249,19 @@ private:
         }
     };
 
+    bool takeListener(unsigned int listenerId)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+
+        for (auto i = listeners.begin(); i != listeners.end(); ++i) {
+            if (i->second->id == listenerId) {
+                listeners.erase(i);
+                return true;
+            }
+        }
+        return false;
+    }
+
     unsigned int addListener(Container *container,
                              const std::string &listenerName,
                              const std::string &subscriberName,
-- 
2.43.0


From 40bcf6a9d3334a9daa80ee01f55e3e8e15c4e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 30/47] fix: Unsafe event emitters find and drop the statistics
 of their listeners

---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h   | 7 ++++---
 .../klepsydra/core/unsafe_single_listener_event_emitter.h  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..e768369 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
diff --git a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
index 65e9710..eb76b97 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
@@ -117,10 +117,10 @@ public:
         if (listenerId == 0) {
             _listenerRegistered = false;
             _singleListener = [](const Event &event) {};
-            if (container) {
+            if (container && _singleListenerStats) {
                 container->detach(_singleListenerStats.get());
-                _singleListenerStats.reset();
             }
+            _singleListenerStats.reset();
         }
     }
 
-- 
2.43.0


From 371f93add5d516278d0689362f8c247cb200aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 31/47] fix: EventEmitterSubscriber has no statistics for a
 listener that is not registered

---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From af10bf7c3f1832ecb5f2f0dc442364cb92914dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 32/47] fix: CoreContainer detaches only the given publication
 statistics and uses each list of statistics under its mutex

---
 core/modules/core/src/core_container.cpp | 68 ++++++++++++++++++------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..a07116b 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -37,20 +37,32 @@ void kpsr::CoreContainer::start()
 {
     _running = true;
 
-    for (auto stats : _serviceStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _functionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _publicationStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _subscriptionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->start();
+        }
     }
 }
 
@@ -58,20 +70,32 @@ void kpsr::CoreContainer::stop()
 {
     _running = false;
 
-    for (auto stats : _serviceStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _functionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _publicationStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _subscriptionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->stop();
+        }
     }
 }
 
@@ -81,6 +105,7 @@ void kpsr::CoreContainer::attach(Service *service)
         return;
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
+    std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
     _managedServices.push_back(service);
     _serviceStats.push_back(&service->serviceStats);
     if (_running) {
@@ -108,6 +133,7 @@ void kpsr::CoreContainer::detach(Service *service)
         }
     }
     {
+        std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
         auto itr = std::find_if(_serviceStats.begin(),
                                 _serviceStats.end(),
                                 [service](ServiceStats *item) {
@@ -220,7 +246,15 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find_if(_publicationStats.begin(),
+                            _publicationStats.end(),
+                            [publicationStats](PublicationStats *item) {
+                                return item->name == publicationStats->name;
+                            });
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From 4fd09a7446d6c6b1cb90d5cb27e693eabb86de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 33/47] fix: Callbacks of CallbackHandler may send requests,
 also when the reply comes while publishing

---
 .../include/klepsydra/core/callback_handler.h | 52 ++++++++++++-------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..731b1bb 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,27 +116,44 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
+    {
+        // The callback runs on its own: it may send further requests.
+        std::function<void(const Reply &)> callback;
+        if (takeCallback(reply, callback)) {
+            callback(reply);
+            return;
+        }
+        spdlog::info(
+            "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
+            _name,
+            _publisher->name);
+    }
+
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
+                                                                                     callback);
+        _requestCallbackVector.push_back(pair);
+    }
+
+    virtual bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback)
     {
         for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
             if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
+                callback = (*it).second;
                 _requestCallbackVector.erase(it);
-                return;
+                return true;
             }
             ++it;
         }
-        spdlog::info(
-            "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
-            _name,
-            _publisher->name);
+        return false;
     }
 
 private:
@@ -221,23 +238,18 @@ public:
 
     virtual ~MultiThreadCallbackHandler() {}
 
-    /**
-     * @brief requestAndReply
-     * @param request Event to publish
-     * @param callback std::function to invoke when the reply is received.
-     */
-    void requestAndReply(const Request &request,
-                         const std::function<void(const Reply &)> &callback) override
+protected:
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::requestAndReply(request, callback);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
     }
 
-protected:
-    void onReplyReceived(const Reply &reply) override
+    bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeCallback(reply, callback);
     }
 
 private:
-- 
2.43.0


From d5dea8e5b30c009aec79c17624e93138858ea901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 34/47] fix: ObjectPoolPublisher takes an exception of the
 cloner for what it is, not for an exhausted pool

---
 .../include/klepsydra/core/object_pool_publisher.h    | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/object_pool_publisher.h b/core/modules/core/include/klepsydra/core/object_pool_publisher.h
index f3bdb8c..177c8d5 100644
--- a/core/modules/core/include/klepsydra/core/object_pool_publisher.h
+++ b/core/modules/core/include/klepsydra/core/object_pool_publisher.h
@@ -79,19 +79,18 @@ public:
 
         if (_objectPool) {
             _eventCreatorWrapper = [this](const T &eventData) {
+                std::shared_ptr<T> newEvent;
                 try {
-                    std::shared_ptr<T> newEvent = std::move(this->_objectPool->acquire());
-                    this->_eventCloner(eventData, *newEvent);
-                    return newEvent;
+                    newEvent = std::move(this->_objectPool->acquire());
                 } catch (const std::out_of_range &ex) {
                     spdlog::info("ObjectPoolPublisher::internalPublish. Object Pool failure. {}",
                                  this->publicationStats.name);
-                    std::shared_ptr<T> newEvent = std::make_shared<T>();
+                    newEvent = std::make_shared<T>();
                     this->publicationStats._totalEventAllocations++;
                     this->_initializerFunction(*newEvent);
-                    this->_eventCloner(eventData, *newEvent);
-                    return newEvent;
                 }
+                this->_eventCloner(eventData, *newEvent);
+                return newEvent;
             };
             _processEventCreatorWrapper = [this]() {
                 std::shared_ptr<T> newEvent;
-- 
2.43.0


From f18f1e12652804640557d1e9fcbd13bfcf040eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 35/47] fix: an event loop that is still running is stopped
 before its parts are destroyed

---
 .../include/klepsydra/high_performance/event_loop.h   | 11 +++++++++++
 .../high_performance/event_loop_middleware_provider.h |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..21ad658 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -95,6 +95,12 @@ public:
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
     }
 
+    ~EventLoop()
+    {
+        stop();
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
+    }
+
     /**
      * @brief start start consumer thread
      */
@@ -128,6 +134,11 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
+        // A halt before the thread has reached the processor would be lost.
+        while (!this->batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(100)) !=
+                   std::future_status::ready) {
+        }
         this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
         if (this->batchProcessorThread.joinable()) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..1108613 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,7 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    ~EventLoopMiddlewareProvider() { _eventLoop.stop(); }
 
     template<class T>
     /**
-- 
2.43.0


From 0d01006afbcd266c8856374907439382ec5d0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 36/47] fix: the event loop releases an event also when one of
 its listeners throws

---
 .../high_performance/event_loop_event_handler.h       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
index 63d5ab9..d8b7cb4 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
@@ -78,9 +78,14 @@ public:
                       __PRETTY_FUNCTION__,
                       event.eventName,
                       sequence);
-        _externalEventEmitter->emitEvent(event.eventName + "_external",
-                                         event.enqueuedTimeInNs,
-                                         event);
+        try {
+            _externalEventEmitter->emitEvent(event.eventName + "_external",
+                                             event.enqueuedTimeInNs,
+                                             event);
+        } catch (...) {
+            event.eventData.reset();
+            throw;
+        }
         event.eventData.reset();
     }
 
-- 
2.43.0


From cabcb52fce12b3b9d7c1d4ca1e9e941391f4ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 37/47] fix: the slots of a data multiplexer made from a model
 event shared one event object

---
 .../high_performance/data_multiplexer_middleware_provider.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index 2339a4b..569b13d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -108,7 +108,9 @@ public:
         : _name(name)
         , _container(container)
         , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
-        , _ringBuffer(_modelEvent.get())
+        , _ringBuffer([&event](DataMultiplexerDataWrapper<TEvent> &slot) {
+            slot.eventData = std::make_shared<TEvent>(event);
+        })
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
-- 
2.43.0


From 4668e086952a8b709ec7d922ebbbc81fe4b6b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 38/47] fix: a data multiplexer subscriber ends its thread on
 every way out and leaves the ring

---
 .../data_multiplexer_subscriber.h             | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..2970e18 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -102,6 +102,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                stopBatchProcessor();
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -115,18 +116,26 @@ public:
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
-            std::this_thread::sleep_for(std::chrono::microseconds(1));
+        stopBatchProcessor();
+    }
+
+    std::unique_ptr<BatchProcessor> batchEventProcessor;
+
+private:
+    void stopBatchProcessor()
+    {
+        // The thread may not have reached the processor yet, or may have left it already.
+        while (!batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(1)) !=
+                   std::future_status::ready) {
         }
         batchEventProcessor->halt();
         if (_batchProcessorThread.joinable()) {
             _batchProcessorThread.join();
         }
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
-    std::unique_ptr<BatchProcessor> batchEventProcessor;
-
-private:
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From 7fd222c1f2e36e57445227964e99ea410ff18886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 39/47] fix: a scheduled task that is replaced or whose
 scheduler ends is stopped first

---
 .../mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h   | 2 ++
 core/modules/mem_mdlw/src/basic_scheduler.cpp               | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..01b06a9 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -84,6 +84,8 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
+        ~ScheduledThread();
+
         /**
          * @brief
          */
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..23e3fa2 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -26,6 +26,11 @@ kpsr::mem::BasicScheduler::ScheduledThread::ScheduledThread(const std::string &n
     , _task(task)
 {}
 
+kpsr::mem::BasicScheduler::ScheduledThread::~ScheduledThread()
+{
+    stop();
+}
+
 void kpsr::mem::BasicScheduler::ScheduledThread::start()
 {
     _isRunning = true;
@@ -74,6 +79,7 @@ void kpsr::mem::BasicScheduler::startScheduledTask(const std::string &name,
                                                    bool repeat,
                                                    std::function<void()> task)
 {
+    stopScheduledTask(name);
     _threadMap[name] = std::shared_ptr<ScheduledThread>(
         new ScheduledThread(name, after, repeat, task));
     _threadMap[name]->start();
-- 
2.43.0


From 68745b20188163ad34f3578a759b1557f112dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 40/47] fix: an exception of a cloner or process function cost
 the data multiplexer one slot of its ring

---
 .../data_multiplexer_publisher.h               | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index dfe006e..265ed3c 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -97,7 +97,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq].eventData);
+            fillSlot(seq, [&] { _eventCloner(event, _ringBuffer[seq].eventData); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -116,7 +116,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            fillSlot(seq, [&] { _eventClonerSharedPtr(event, _ringBuffer[seq].eventData); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -136,7 +136,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].eventData);
+            fillSlot(seq, [&] { process(*_ringBuffer[seq].eventData); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -148,6 +148,18 @@ public:
     }
 
 private:
+    template<class Fill>
+    void fillSlot(int64_t seq, Fill fill)
+    {
+        try {
+            fill();
+        } catch (...) {
+            // A slot that is claimed and never published would be lost to the ring.
+            _ringBuffer.claim(seq - 1);
+            throw;
+        }
+    }
+
     RingBuffer &_ringBuffer;
     std::function<void(const TEvent &, std::shared_ptr<TEvent> &)> _eventCloner;
     std::function<void(std::shared_ptr<const TEvent> &, std::shared_ptr<TEvent> &)>
-- 
2.43.0


From bba169c96aede7aa7b8b320895b4cec352131c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 41/47] fix: a running in-memory provider stops its poller
 before its queue is destroyed

---
 .../include/klepsydra/mem_core/basic_middleware_provider.h     | 3 +++
 .../klepsydra/mem_core/concurrent_middleware_provider.h        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..e625d76 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // The poller takes events from the queue: it has to end before the queue is destroyed.
+    ~BasicMiddlewareProvider() { this->_poller->stop(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..f6d694a 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // The poller takes events from the queue: it has to end before the queue is destroyed.
+    ~ConcurrentMiddlewareProvider() { this->_poller->stop(); }
+
     /**
      * @brief _internalQueue
      */
-- 
2.43.0


From 6e095424c3fa6a0b581225d3a6464ce9c8024fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 42/47] fix: binary ZMQ messages carried the tail of an earlier
 longer event

---
 .../include/klepsydra/zmq_core/to_zmq_middleware_provider.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
index 9c250b9..c21f0ae 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
@@ -91,7 +91,8 @@ public:
                 if (!event) {
                     event = new std::stringbuf;
                 }
-                event->pubseekpos(0);
+                // Also drops what an earlier, longer event left behind.
+                static_cast<std::stringbuf *>(event)->str(std::string());
             };
             std::function<void(Base &)> finalizerFunction = [](Base &event) { delete event; };
             std::unique_ptr<BinaryToZMQChannel> toZmqChannel{
-- 
2.43.0


From 06d72030be1b02754f3139909871143d59ad349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 43/47] fix: a topic of a ZMQ channel could not be registered
 again once it was unregistered

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..cd22254 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -86,7 +86,11 @@ public:
      * @brief unregisterFromTopic
      * @param topic
      */
-    void unregisterFromTopic(const std::string &topic) { _zmqPoller->unregisterFromTopic(topic); }
+    void unregisterFromTopic(const std::string &topic)
+    {
+        _zmqPoller->unregisterFromTopic(topic);
+        _subscriberMap.erase(topic);
+    }
 
     /**
      * @brief start Launches the polling thread.
-- 
2.43.0


From 830d8ea5be8e060f5eef288e3d98fcd49436e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 44/47] fix: ZMQ pollers and their channels were destroyed
 while the polling thread was using them

---
 .../zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h  | 2 ++
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h        | 5 +++--
 .../zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h    | 2 ++
 .../include/klepsydra/zmq_core/void_caster_zmq_poller.h      | 2 ++
 .../modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h | 2 +-
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 1bf8079..099820b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -49,6 +49,8 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~BinaryZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index cd22254..c10e7e1 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -103,9 +103,10 @@ public:
     void stop() { _zmqPoller->stop(); }
 
 private:
-    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
-
     std::map<std::string, std::shared_ptr<void>> _subscriberMap;
+
+    // Destroyed first: its thread uses the channels of the map.
+    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
 };
 
 /**
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 564104b..36797cb 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -46,6 +46,8 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~JsonZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index c19a2bb..a8481a4 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -44,6 +44,8 @@ public:
         : ZMQPoller<std::vector<unsigned char>>(subscriber, pollPeriod)
     {}
 
+    ~VoidCasterZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..8406a77 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -97,7 +97,7 @@ public:
         _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
+    virtual ~ZMQPoller()
     {
         _running = false;
         if (_threadNotifier.joinable()) {
-- 
2.43.0


From eaaa06aa7c657a39c805c9f4ec9089bd2185c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:41 +0000
Subject: [PATCH 45/47] fix: stopping a ZMQ poller whose thread was still
 starting never returned

---
 .../zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h  | 2 +-
 .../zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h    | 2 +-
 .../include/klepsydra/zmq_core/void_caster_zmq_poller.h      | 2 +-
 .../modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h | 5 ++++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 099820b..3391e47 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -56,7 +56,7 @@ public:
      */
     virtual void poll()
     {
-        while (_running) {
+        while (isStarted() && isRunning()) {
             zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, _pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 36797cb..ebd5618 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -53,7 +53,7 @@ public:
      */
     void poll()
     {
-        while (_running) {
+        while (isStarted() && isRunning()) {
             zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, _pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index a8481a4..8006b1e 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -51,7 +51,7 @@ public:
      */
     void poll() override
     {
-        while (this->_running) {
+        while (this->isStarted() && this->isRunning()) {
             zmq::pollitem_t items[] = {{this->_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, this->_pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 8406a77..7234b80 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -89,16 +89,19 @@ public:
         if (!isStarted()) {
             return;
         }
+        // The thread might only now be starting: it must see that it is not wanted any more.
+        _started.store(false, std::memory_order_release);
         _running.store(false, std::memory_order_release);
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
         }
+        _running.store(false, std::memory_order_release);
         _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
-        _started.store(false, std::memory_order_release);
     }
 
     virtual ~ZMQPoller()
     {
+        _started = false;
         _running = false;
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
-- 
2.43.0


From ea7edbc54bca3d86bd74eeb9b25711bedc2020db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 46/47] fix: the running flag of the ZMQ configuration poller
 was not atomic

---
 core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..612bdbf 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -17,6 +17,7 @@
 #ifndef ZMQ_ENV_H
 #define ZMQ_ENV_H
 
+#include <atomic>
 #include <zmq.hpp>
 
 #include <future>
@@ -57,7 +58,7 @@ private:
     ZMQEnv *_zmqEnv;
     long _sourceId;
     int _pollPeriod;
-    bool _running;
+    std::atomic<bool> _running;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     std::thread _threadPoller;
 };
-- 
2.43.0


From 0c3875288e108211903cee05a0dccb6124733262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 47/47] fix: a ZMQ environment was read and changed while its
 poller updated it

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h      |  4 ++++
 core/modules/zmq_mdlw/src/zmq_env.cpp                  | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 612bdbf..432505f 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -21,6 +21,7 @@
 #include <zmq.hpp>
 
 #include <future>
+#include <mutex>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -206,6 +207,9 @@ private:
     ZMQConfigurationPoller *_poller;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     bool _isEnvLocal;
+
+    // The poller's thread updates the configuration that others read and change.
+    std::mutex _envMutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..4920fee 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -88,6 +88,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -96,6 +97,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -104,6 +106,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -112,6 +115,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -120,6 +124,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -127,6 +132,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -135,6 +141,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -143,6 +150,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -151,12 +159,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_envMutex);
     if (_decorableEnv->loadFile(fileName, nodeName)) {
         publishConfiguration();
         return true;
-- 
2.43.0

