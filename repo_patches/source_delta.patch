From 5dba44fb4bed0a07e84422e06204b93583794bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 01/31] fix: async logger flushes its sinks directly on the
 worker instead of queueing a flush and waiting for itself

---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From ef63e8661ba2335445f178e0e13d15b2da1d9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 02/31] fix: lockfree pool waits until every queued message has
 been taken before it stops its workers

---
 base/lockfree_thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..44a32a3 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -84,7 +84,7 @@ public:
     }
 
     ~lockfree_thread_pool() override {
-        while (current_msg_count() != 0) {
+        while (pending_cnt_.load() != 0) {
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
@@ -105,6 +105,7 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
+        pending_cnt_.fetch_add(1);
         while (!msg_q_.try_enqueue(std::move(amsg)))
             continue;
     }
@@ -121,6 +122,7 @@ private:
         }
         msg_q_.wait_dequeue(*token, amsg);
 #endif
+        pending_cnt_.fetch_sub(1);
     }
 
 #ifdef LEARNLOG_USE_TLS
@@ -130,6 +132,7 @@ private:
     std::unordered_map<size_t, c_token_uni_ptr> tokens_;
 #endif
 
+    std::atomic<size_t> pending_cnt_{0};    // 已入队但尚未被工作线程取出的消息数
     moodycamel::BlockingConcurrentQueue<async_msg> msg_q_;
 };
 
-- 
2.43.0


From 46306e33e9da7cc3f5e0355f4da0e9b99efe218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 03/31] fix: the producer token lock of the concurrent pool
 orders the enqueues it protects

---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 3f6c800b9a5625538dfd13d56d4b87d25c1a1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 04/31] fix: periodic worker cannot miss the stop request of
 its destructor

---
 base/periodic_function.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..52636e3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,10 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 63e0d92fef6189026a22aa2b16c73d65ea4a2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 05/31] fix: new loggers use the global formatter, not the
 default pattern

---
 base/registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..0a32c02 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    new_logger->set_formatter(global_formatter_->clone());
     std::string pattern = global_pattern_;
     new_logger->set_pattern(pattern);
+    new_logger->set_formatter(global_formatter_->clone());
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From b6a6d40670210665fe68b1ac13d267a16f79e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 06/31] fix: set_global_pattern is applied in one step and
 registered loggers report it

---
 base/registry.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 0a32c02..ee853f0 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -60,13 +60,12 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_formatter_ = learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(pattern);
     }
-    auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
+    global_pattern_ = std::move(pattern);
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From 380bcd42876c636323d9e157201ddd1471d6806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 07/31] fix: disable_backtrace() on a logger that never enabled
 it

---
 include/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..56ef311 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,7 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() { if (tracer_ != nullptr) { tracer_->disable(); } }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 54cda3648bd62e65105bc855a7abf91d60e8f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 08/31] fix: create directories of absolute paths

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..53c932d 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,7 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From 9215656943d4eb4fea05302e4ad87a35bbe73855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 09/31] fix: three-letter month name for September

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From 63109b2fb32a39a841b9ad742552179d9f4ae58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 10/31] fix: %C for a source location without a function name

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 477f4c6..74e478e 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -424,7 +424,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm&, fmt_memory_buf& dest_buf) override {
-        if (msg.loc.empty()) {
+        if (msg.loc.empty() || msg.loc.funcname == nullptr) {
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-- 
2.43.0


From 6464de6aa4b648e1b426035a12bda243c867e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 11/31] fix: is_color_terminal() evaluates the terminal type

---
 base/os.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 53c932d..b132ef3 100755
--- a/base/os.h
+++ b/base/os.h
@@ -8,6 +8,8 @@
 #include <sys/stat.h>
 #include <thread>
 #include <ctime>
+#include <cstdlib>
+#include <cstring>
 #include <array>
 
 #ifdef _WIN32
@@ -116,7 +118,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From 38b297671eee8db767eb3bc21e5213a584d65b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 12/31] fix: sleep_for_ms() sleeps milliseconds

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index b132ef3..d48caef 100755
--- a/base/os.h
+++ b/base/os.h
@@ -80,7 +80,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From 9d4cbccfcb42b44b48ed7ad6f95ccba704b6da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 13/31] fix: size() of an invalid circular queue

---
 base/circular_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..6868e76 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,9 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const {
+        return max_size_ > 0 ? (tail_ - head_ + max_size_) % max_size_ : 0;
+    }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 30e62029ec37b3d97d9a774769ff4bffa60ddfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 14/31] fix: swapping loggers swaps their patterns

---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..1085bc0 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
-- 
2.43.0


From 6d582dc1a1c3ef417d516358966b2a8ae5969b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 15/31] fix: pattern that ends inside a conversion

---
 sinks/formatters/pattern_formatter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..51a3dd7 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,8 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From 29a32d5ad312e714fc11fdfc14b9e9bf966be400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 16/31] fix: a thread that logs through a second concurrent
 pool uses the tokens of that pool

---
 base/lockfree_concurrent_thread_pool.cpp |  2 ++
 base/lockfree_concurrent_thread_pool.h   | 41 ++++++++++++++----------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..f4d9caf 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -4,5 +4,7 @@ using namespace learnlog;
 using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
+    thread_local size_t lockfree_concurrent_thread_pool::token_pool_id_ = 0;
     thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::consumer_token_ = nullptr;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..d72c0c2 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -62,7 +62,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -98,7 +98,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -134,7 +134,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -174,18 +174,13 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        if (token_pool_id_ == pool_id_) {
+            token = token_;
         }
-        token = token_;
-#else
-        size_t tid = os::thread_id();
+        else
+#endif
         {
+            size_t tid = os::thread_id();
             std::lock_guard<std::mutex> lock(p_mutex_);
             if (producer_atomic_tokens_.find(tid) == producer_atomic_tokens_.end()) {
                 size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
@@ -199,8 +194,11 @@ private:
             else {
                 token = producer_atomic_tokens_[tid];
             }
-        }
+#ifdef LEARNLOG_USE_TLS
+            token_ = token;
+            token_pool_id_ = pool_id_;
 #endif
+        }
         token->enqueue_lock();
         while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
             if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
@@ -213,7 +211,7 @@ private:
     void dequeue_async_msg_(async_msg& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        token = token_;
+        token = consumer_token_;
 #else
         {
             std::lock_guard<std::mutex> lock(c_mutex_);
@@ -231,11 +229,20 @@ private:
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
+    std::mutex p_mutex_;
+    std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
 #ifdef LEARNLOG_USE_TLS
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> id{0};
+        return ++id;
+    }
+
+    const size_t pool_id_ = next_pool_id_();
+    // 当前线程最近一次入队所使用的线程池编号（从 1 开始，不重复使用）及对应的 token
+    static thread_local size_t token_pool_id_;
     static thread_local atomic_token* token_;
+    static thread_local atomic_token* consumer_token_;
 #else
-    std::mutex p_mutex_;
-    std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 7b8acc40e2bc87ac01b6f1b7d18ab3001bdea69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 17/31] fix: a stream whose fclose() failed is not closed again

---
 base/file_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..04c3e35 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,14 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        FILE* fp = *fpp;
+        *fpp = nullptr;     // fclose() 失败后文件流也不能再使用
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 8413ff85727296fa7e0635bfacf62db88ed52a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 18/31] fix: closing a file sink whose last write fails reports
 the error instead of terminating

---
 sinks/basic_file_sink.h   | 6 ++++--
 sinks/rolling_file_sink.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..7d1c593 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,10 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        try { basic_sink<Mutex>::flush(); }
+        catch(const std::exception& e) { learnlog::handle_excpt(e.what()); }
+        try { base::file_base::close(&file_, filename_); }
+        catch(const std::exception& e) { learnlog::handle_excpt(e.what()); }
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..774bf53 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,10 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        try { basic_sink<Mutex>::flush(); }
+        catch(const std::exception& e) { learnlog::handle_excpt(e.what()); }
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        catch(const std::exception& e) { learnlog::handle_excpt(e.what()); }
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From 056cca851c12a375db19a9cf92a2c6b64388cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 19/31] fix: rolling sink recovers after a new file could not
 be opened

---
 sinks/rolling_file_sink.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index 774bf53..5dd2a79 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -92,7 +92,11 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
-        if (cur_file_size_ + buf.size() > max_file_size_) {
+        if (file_ == nullptr) {     // 上一次滚动失败，没有可写入的文件
+            roll_file_();
+            cur_file_size_ = 0;
+        }
+        else if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
                 roll_file_();
-- 
2.43.0


From beb8bcc1d41b83603d5960ecd96553c455638c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 20/31] fix: log and flush levels may be changed while other
 threads log

---
 include/logger.h | 20 ++++++++++----------
 src/logger.cpp   | 22 ++++++++++++++++++++--
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 56ef311..70538d3 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -37,8 +37,8 @@ public:
 
     virtual ~logger() = default;
 
-    logger(const logger& other) = default;
-    logger(logger&& other) = default;
+    logger(const logger& other);
+    logger(logger&& other);
     void swap(logger& other) noexcept;
 
     // 模板函数 log() 的完整参数实现，msg 以 fmt_format_string 类型及可变参数传入
@@ -160,19 +160,19 @@ public:
 
 
     void set_log_level(level::level_enum log_level) {
-        log_level_ = log_level;
+        log_level_.store(log_level, std::memory_order_relaxed);
     }
 
     level::level_enum get_log_level() const {
-        return log_level_;
+        return log_level_.load(std::memory_order_relaxed);
     }
 
     void set_flush_level(level::level_enum flush_level) {
-        flush_level_ = flush_level;
+        flush_level_.store(flush_level, std::memory_order_relaxed);
     }
     
     level::level_enum get_flush_level() const {
-        return flush_level_;
+        return flush_level_.load(std::memory_order_relaxed);
     }
 
     void flush() { flush_sink_(); }
@@ -204,17 +204,17 @@ protected:
     std::string name_;
     std::vector<sink_shr_ptr> sinks_;
     std::shared_ptr<base::backtracer> tracer_;
-    level::level_enum log_level_ = level::info;
-    level::level_enum flush_level_ = level::off;
+    std::atomic<level::level_enum> log_level_{level::info};
+    std::atomic<level::level_enum> flush_level_{level::off};
     std::string pattern_ = "%+";
     bool is_async_ = false;  
 
     bool should_log_(level::level_enum msg_level) const {
-        return msg_level >= log_level_;
+        return msg_level >= log_level_.load(std::memory_order_relaxed);
     }
 
     bool should_flush_(level::level_enum msg_level) const {
-        return (msg_level >= flush_level_) && (msg_level != level::off);
+        return (msg_level >= flush_level_.load(std::memory_order_relaxed)) && (msg_level != level::off);
     }
 
     template <typename... Args>
diff --git a/src/logger.cpp b/src/logger.cpp
index 1085bc0..7f6870c 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -4,11 +4,29 @@
 
 using namespace learnlog;
 
+logger::logger(const logger& other) :
+    name_(other.name_),
+    sinks_(other.sinks_),
+    tracer_(other.tracer_),
+    log_level_(other.get_log_level()),
+    flush_level_(other.get_flush_level()),
+    pattern_(other.pattern_),
+    is_async_(other.is_async_) {}
+
+logger::logger(logger&& other) :
+    name_(std::move(other.name_)),
+    sinks_(std::move(other.sinks_)),
+    tracer_(std::move(other.tracer_)),
+    log_level_(other.get_log_level()),
+    flush_level_(other.get_flush_level()),
+    pattern_(std::move(other.pattern_)),
+    is_async_(other.is_async_) {}
+
 void logger::swap(logger& other) noexcept {
     name_.swap(other.name_);
     sinks_.swap(other.sinks_);
-    std::swap(log_level_, other.log_level_);
-    std::swap(flush_level_, other.flush_level_);
+    log_level_ = other.log_level_.exchange(log_level_);
+    flush_level_ = other.flush_level_.exchange(flush_level_);
     std::swap(tracer_, other.tracer_);
     pattern_.swap(other.pattern_);
 }
-- 
2.43.0


From b6fa6066bcebbd9afece1246048887df9a1cc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 21/31] fix: define learnlog::swap where it is declared

---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 7f6870c..31c8f5c 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -92,4 +92,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 47a3c50fbda4c32ebb5cf89d987ad0f2c24f8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 22/31] fix: one lock for all asynchronous factories

Factories of different sink or pool types had a lock each, so two loggers created at the same time could end up on a
thread pool the other call had just replaced.
---
 include/async_factory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..55307e4 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,17 @@
 
 namespace learnlog {
 
+// 所有 async_factory 共用的锁，保证"获取或新建线程池、创建并注册 logger"的过程不被其它 async_factory 打断
+inline std::mutex& async_factory_mutex() {
+    static std::mutex mutex;
+    return mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From 88a35dab543b82e716235b93c4c7bb592aae36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:47 +0000
Subject: [PATCH 23/31] fix: reporting an exception does not assert that the
 wall clock moved forward

---
 base/exception.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..90ba619 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -6,7 +6,6 @@
 #include <exception>
 #include <string>
 #include <atomic>
-#include <cassert>
 #include <iterator>
 
 // 处理异常，将异常的内容、产生位置（如果提供）组合成异常信息，
@@ -23,19 +22,14 @@
 namespace learnlog {
 
 // 将异常的编号、时间、信息输出到stderr
-// 通过 staic std::atomic 保证编号和时间的一致性、原子性
+// 通过 staic std::atomic 保证编号的唯一性。
+// 系统时钟可能回拨，也可能多次返回同一时刻，因此不对相邻两次报告的时间作任何断言
 inline void handle_excpt(const std::string& msg) {
     using tp = sys_clock::time_point;
-    static std::atomic<tp> last_report_time{ tp(seconds(0)) };
     static std::atomic<size_t> report_cnt{1};
 
-    tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
-    (void)lr_time;
-    // if(now - lr_time < std::chrono::seconds(1)){ return; }
-    last_report_time.store(now, std::memory_order_release);
 
     char dt_buf[32];
     base::os::time_point_to_datetime_sec(dt_buf, sizeof(dt_buf), now);
-- 
2.43.0


From 944795e21a59fe2c9889657316ecfe39b5dc9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 24/31] fix: time_point_to_datetime_nsec() does not print its
 buffer into itself

---
 base/os.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/os.h b/base/os.h
index d48caef..742dd19 100755
--- a/base/os.h
+++ b/base/os.h
@@ -71,9 +71,8 @@ inline void time_point_to_datetime_nsec(char* dt_buf, size_t buf_len, const sys_
     ns_str[9] = '\0';
 
     std::tm tm = time_point_to_tm(tp);
-    std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
-
-    snprintf(dt_buf, buf_len, "%s%s", dt_buf, ns_str);
+    size_t len = std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
+    snprintf(dt_buf + len, buf_len - len, "%s", ns_str);
 }
 
 inline void sleep_for_ms(size_t ms) noexcept {
-- 
2.43.0


From b79fd5e1111d8237141fa5bff20f31662fbd43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 25/31] fix: create_dir() accepts a directory that somebody
 else made meanwhile

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 742dd19..3f7dc5f 100755
--- a/base/os.h
+++ b/base/os.h
@@ -207,7 +207,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 目录可能在检查之后被其它线程或进程创建，此时 mkdir_() 失败但目录已存在
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir) && !dir_exist(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From c3705aadc592d55ae29de50f919d1c12c2f2409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 26/31] fix: dequeue_for() with a duration beyond the clock's
 range returned at once or never

dequeue_for(x, milliseconds::max()) overflowed the deadline and gave up at once;
a hugely negative duration overflowed to a deadline far ahead and waited for ever.
The duration is limited to what the clock can represent.
---
 base/block_queue.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/block_queue.h b/base/block_queue.h
index 16f90a6..cdd3ac4 100755
--- a/base/block_queue.h
+++ b/base/block_queue.h
@@ -74,6 +74,7 @@ public:
     }
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
+        duration = limit_duration_(duration);
         {
             std::unique_lock<std::mutex> lock(queue_mutex_);
             if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
@@ -129,6 +130,7 @@ public:
     }
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
+        duration = limit_duration_(duration);
         std::unique_lock<std::mutex> lock(queue_mutex_);
         if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
             return false;
@@ -169,6 +171,13 @@ public:
     void reset_discard_count() { discard_count_.store(0, std::memory_order_relaxed); }
 
 private:
+    // 等待时间过大时，截止时间会超出时钟的表示范围，使等待立即结束
+    static std::chrono::milliseconds limit_duration_(std::chrono::milliseconds duration) {
+        const std::chrono::milliseconds max_duration = std::chrono::hours(24 * 365 * 100);
+        if (duration < std::chrono::milliseconds::zero()) return std::chrono::milliseconds::zero();
+        return duration < max_duration ? duration : max_duration;
+    }
+
     std::mutex queue_mutex_;
     std::condition_variable push_cv_;
     std::condition_variable pop_cv_;
-- 
2.43.0


From 9ccfc580b609cea3c6e96166bf96a5ee22af2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 27/31] fix: periodic_function with an interval beyond the
 clock's range ran without a pause

periodic_function(f, hours::max()) (flush_every() likewise) overflowed the deadline:
every wait ended at once and f was called in a busy loop. The interval is limited
to what the clock can represent.
---
 base/periodic_function.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 52636e3..3d06fcf 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -20,6 +20,12 @@ public:
         active_ = (interval > std::chrono::duration<Rep, Period>::zero());
         if (!active_) return;
 
+        // 间隔过大时，等待的截止时间会超出时钟的表示范围，使等待立即结束
+        const std::chrono::hours max_interval(24 * 365 * 100);
+        if (interval > max_interval) {
+            interval = std::chrono::duration_cast<std::chrono::duration<Rep, Period>>(max_interval);
+        }
+
         thread_ = std::thread([this, func, interval] {
             for (;;) {
                 std::unique_lock<std::mutex> lock(mutex_);
-- 
2.43.0


From dfb0df5b7cdc3e406851f11791c1747be73764c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 28/31] fix: a padding width of 2^64 and more wrapped around

%18446744073709551617v was padded to 1 column instead of the maximum width.
---
 sinks/formatters/pattern_formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 51a3dd7..7649651 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -102,7 +102,7 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     size_t fill_len = static_cast<size_t>(*it) - '0';
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
-        fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        fill_len = std::min<size_t>(fill_len * 10 + static_cast<size_t>(*it) - '0', MAX_SPACES_LEN);
         ++it;
     }
 
-- 
2.43.0


From dae3d347c134db6e25bf5eccc747db4505edcedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 29/31] fix: report a failing fflush of the standard stream
 sinks

---
 sinks/ansicolor_sink.h |  5 ++++-
 sinks/std_sinks.h      | 13 +++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index 63047f9..e0ebd1e 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -82,7 +82,10 @@ public:
 
     void flush() override {
         std::lock_guard<mutex_t> lock(mutex_);
-        ::fflush(file_);
+        if (::fflush(file_) != 0) {
+            source_loc loc{__FILE__, __LINE__, __func__};
+            throw_learnlog_excpt("learnlog::ansicolor_sink: fflush() failed", errno, loc);
+        }
     }
 
     void set_pattern(const std::string& pattern) override {
diff --git a/sinks/std_sinks.h b/sinks/std_sinks.h
index 2390802..0d977d8 100755
--- a/sinks/std_sinks.h
+++ b/sinks/std_sinks.h
@@ -84,12 +84,12 @@ public:
                                 base::os::get_errno(), loc);
         }
 #endif
-        ::fflush(file_);    // 每条日志输出后立即清空缓冲区
+        fflush_();    // 每条日志输出后立即清空缓冲区
     }
 
     void flush() override {
         std::lock_guard<mutex_t> lock(mutex_);
-        ::fflush(file_);
+        fflush_();
     }
 
     void set_pattern(const std::string& pattern) override {
@@ -103,6 +103,15 @@ public:
     }
 
 private:
+    // 清空缓冲区，失败时已缓冲的内容没有写出
+    void fflush_() {
+        if (::fflush(file_) != 0) {
+            source_loc loc{__FILE__, __LINE__, __func__};
+            throw_learnlog_excpt("learnlog::std_sink: fflush() failed", 
+                                base::os::get_errno(), loc);
+        }
+    }
+
     mutex_t& mutex_;
     FILE* file_;
     formatter_uni_ptr formatter_;
-- 
2.43.0


From 972b6f4d0b79da47e93211ef949b388ab063a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 30/31] fix: report a failing write of a colour escape sequence

---
 sinks/ansicolor_sink.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index e0ebd1e..593abdf 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -53,6 +53,7 @@ public:
         formatter_->format(msg, buf);
 
         std::string level_color = level_colors_.at(static_cast<size_t>(msg.level));
+        size_t bytes_expected = buf.size();
         size_t bytes_written = 0;
         size_t bytes;
         if (is_color_enabled_ && msg.color_index_end > msg.color_index_start) {
@@ -60,11 +61,14 @@ public:
             bytes_written += bytes;
 
             // 根据 log_msg.level 确定颜色，通过添加 ANSI 颜色转义字符串给标记文字区间上色，然后恢复默认颜色
-            ::fwrite(level_color.c_str(), sizeof(char), level_color.size(), file_);
+            bytes_expected += level_color.size() + reset.size();
+            bytes = ::fwrite(level_color.c_str(), sizeof(char), level_color.size(), file_);
+            bytes_written += bytes;
             bytes = ::fwrite(buf.data() + msg.color_index_start, sizeof(char), 
                                 msg.color_index_end - msg.color_index_start, file_);
             bytes_written += bytes;
-            ::fwrite(reset.c_str(), sizeof(char), reset.size(), file_);
+            bytes = ::fwrite(reset.c_str(), sizeof(char), reset.size(), file_);
+            bytes_written += bytes;
 
             bytes = ::fwrite(buf.data() + msg.color_index_end, sizeof(char), 
                                 buf.size() - msg.color_index_end, file_);
@@ -74,7 +78,7 @@ public:
             bytes_written = ::fwrite(buf.data(), sizeof(char), buf.size(), file_);
         }
 
-        if (bytes_written != buf.size()) {
+        if (bytes_written != bytes_expected) {
             source_loc loc{__FILE__, __LINE__, __func__};
             throw_learnlog_excpt("learnlog::ansicolor_sink: fwrite() failed", errno, loc);
         }
-- 
2.43.0


From 9af97216ec214b6751cb5adfbd48f85c6c44cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 31/31] fix: assigning a log_msg_buf to itself lost its text

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..d3fd5ce 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) { return *this; }
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0

