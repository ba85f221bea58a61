From 67368639570ed00b66817cb61c97ca924ac8ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 01/68] fix: File::try_open() must not leave the file object
 open when it fails

When the opened file turned out to be a directory, or when it could not be
examined, the function reported failure but left the file object open.
---
 src/archon/core/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.cpp b/src/archon/core/file.cpp
index 0e66891..273e37a 100644
--- a/src/archon/core/file.cpp
+++ b/src/archon/core/file.cpp
@@ -80,6 +80,7 @@ bool File::try_open(FilesystemPathRef path, AccessMode access_mode, CreateMode c
                 return true;
             ec = make_error_code(std::errc::is_a_directory);
         }
+        close();
     }
     return false;
 }
-- 
2.43.0


From bedccb04181972d42e33c720fd51486129ab7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:19 +0000
Subject: [PATCH 02/68] fix: moving a File object must carry its
 no-implicit-close state along

After moving a file object that refers to a standard stream, the destination
closed the stream on destruction. After moving into such an object, the
descriptor that was moved in was never closed.
---
 src/archon/core/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.hpp b/src/archon/core/file.hpp
index 57a2ad0..895aaeb 100644
--- a/src/archon/core/file.hpp
+++ b/src/archon/core/file.hpp
@@ -1084,6 +1084,7 @@ inline void File::implicit_close() noexcept
 inline void File::steal_from(File& other) noexcept
 {
     m_handle = other.m_handle;
+    m_no_implicit_close = other.m_no_implicit_close;
 #if ARCHON_WINDOWS
     m_holds_lock = other.m_holds_lock;
 #endif
-- 
2.43.0


From 9a066aa032f7d4a1c5e446d72d014a4305b99019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 03/68] fix: test runner must not forget the concurrent tests
 of the last thread

The counters of the thread context that goes on to execute the nonconcurrent
tests were cleared before they had been added to the totals, so failures of
concurrent tests could go uncounted, and the run be reported as a success.
---
 src/archon/check/noinst/thread_context_impl.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 27d96bf..c515481 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,8 +79,6 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
-    clear_counters();
-
     std::unique_lock lock(m_root_context.mutex); // Throws
 
     for (auto entry : m_root_context.nonconcur_execs)
-- 
2.43.0


From 295b484147e8786f8d0813969972e018a8198c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 04/68] fix: test runner must not end a sole test thread twice

When a single test thread was used, and there were no nonconcurrent tests, the
end of the thread was reported twice and its counts were added twice.
---
 src/archon/check/test_runner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/check/test_runner.cpp b/src/archon/check/test_runner.cpp
index d3920ab..6ea1d25 100644
--- a/src/archon/check/test_runner.cpp
+++ b/src/archon/check/test_runner.cpp
@@ -354,7 +354,8 @@ bool TestRunner::run() const
         log::Logger& logger = (loggers[0] ? *loggers[0] : m_logger);
         ThreadContextImpl thread_context(root_context, 0, logger, m_config.inner_log_level_limit); // Throws
         thread_context.run(); // Throws
-        thread_context.nonconcur_run(); // Throws
+        if (root_context.last_thread_to_end != -1)
+            thread_context.nonconcur_run(); // Throws
     }
     else {
         std::unique_ptr<std::unique_ptr<ThreadContextImpl>[]> thread_contexts =
-- 
2.43.0


From 4669ff9791ff7440542e19b7054cde1b4248cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 05/68] fix: XML reporter must own the file paths that it
 remembers

The mapped file path of a failure context is not guaranteed to live until the
end of the testing process. For checks performed in other files than that of
the test case, it refers to a cache that is overwritten and destroyed.
---
 src/archon/check/xml_reporter.cpp | 2 +-
 src/archon/check/xml_reporter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 57e60a9..5cd3900 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -87,7 +87,7 @@ void XmlReporter::begin(const check::TestContext& context, log::Logger&)
 void XmlReporter::fail(const check::FailContext& context, std::string_view message, log::Logger&)
 {
     Failure f;
-    f.file_path = context.mapped_file_path;
+    f.file_path = std::string(context.mapped_file_path); // Throws
     f.line_number = context.location.line_number;
     f.message = std::string(message); // Throws
     const check::TestContext& test_context = context.test_context;
diff --git a/src/archon/check/xml_reporter.hpp b/src/archon/check/xml_reporter.hpp
index d965a44..f01669d 100644
--- a/src/archon/check/xml_reporter.hpp
+++ b/src/archon/check/xml_reporter.hpp
@@ -56,7 +56,7 @@ public:
 
 protected:
     struct Failure {
-        std::string_view file_path;
+        std::string file_path;
         long line_number;
         std::string message;
     };
-- 
2.43.0


From a1babce751c3d422b7cbb4cf6895a7afce66ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 06/68] fix: XML reporter must escape file paths

---
 src/archon/check/xml_reporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 5cd3900..c8c3eef 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -137,7 +137,7 @@ void XmlReporter::root_end(const check::RootContext& context, const check::Summa
         m_out << ">\n"; // Throws
 
         for (auto& i_2 : t.failures) {
-            m_out << "    <failure message=\"" << i_2.file_path << "(" << i_2.line_number << ") : "
+            m_out << "    <failure message=\"" << as_xml_escaped(i_2.file_path) << "(" << i_2.line_number << ") : "
                 "" << as_xml_escaped(i_2.message) << "\"/>\n"; // Throws
         }
         m_out << "  </test>\n"; // Throws
-- 
2.43.0


From 461cb76014c335c58e49a1e93b05b21f9fb2c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 07/68] fix: test runner must hold lock while accessing cache
 of mapped file path

When several threads of a test case fail checks concurrently, the cache was
accessed without holding the lock that is supposed to protect it.
---
 .../check/noinst/thread_context_impl.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index c515481..4e20308 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -175,21 +175,21 @@ void ThreadContextImpl::check_failed(const check::TestContext& test_context, che
         ++m_num_failed_checks;
         m_errors_seen = true;
     }
-    std::string_view mapped_file_path;
-    check::Location test_location = test_context.test_details.location;
-    if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
-        mapped_file_path = test_context.mapped_file_path;
-    }
-    else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
-    else {
-        m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
-        m_mapped_file_path_cache_key = location.file_path;
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
     {
         std::lock_guard lock(m_root_context.mutex); // Throws
+        std::string_view mapped_file_path;
+        check::Location test_location = test_context.test_details.location;
+        if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
+            mapped_file_path = test_context.mapped_file_path;
+        }
+        else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
+        else {
+            m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
+            m_mapped_file_path_cache_key = location.file_path;
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
         m_test_level_report_logger.file_path   = mapped_file_path;
         m_test_level_report_logger.line_number = location.line_number;
         check::FailContext fail_context(test_context, location, mapped_file_path);
-- 
2.43.0


From 4c0f24a02639c26f5979d9d896888555f22e0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:09 +0000
Subject: [PATCH 08/68] fix: thread guard must survive being moved while its
 thread is running

The managed thread captured the address of the thread guard object, so when
the object was moved, an exception thrown by the thread was stored in the
moved-from (possibly destroyed) object.
---
 src/archon/core/thread_guard.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index a94b846..1e8d709 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -25,6 +25,7 @@
 
 
 #include <exception>
+#include <memory>
 #include <utility>
 #include <string>
 
@@ -128,7 +129,10 @@ public:
 
 private:
     std::thread m_thread;
-    std::exception_ptr m_exception;
+
+    // The exception slot has to stay put in memory when the thread guard object is moved, as
+    // it is accessed by the managed thread.
+    std::unique_ptr<std::exception_ptr> m_exception;
 };
 
 
@@ -188,8 +192,9 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func)
 
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
+    : m_exception(std::make_unique<std::exception_ptr>()) // Throws
 {
-    auto run = [this, thread_name = std::move(config.thread_name),
+    auto run = [exception = m_exception.get(), thread_name = std::move(config.thread_name),
                 func = std::move(func)]() noexcept {
         try {
             if (thread_name.has_value())
@@ -197,7 +202,7 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
             func(); // Throws
         }
         catch (...) {
-            m_exception = std::current_exception();
+            *exception = std::current_exception();
         }
     };
     if (config.block_signals) {
@@ -220,8 +225,8 @@ inline void ThreadGuard::join()
 inline void ThreadGuard::join_and_rethrow()
 {
     join(); // Throws
-    if (m_exception) {
-        std::exception_ptr exception = std::move(m_exception);
+    if (m_exception && *m_exception) {
+        std::exception_ptr exception = std::exchange(*m_exception, nullptr);
         std::rethrow_exception(exception); // Throws
     }
 }
-- 
2.43.0


From 942a6c1e4dc022fb53e72a02dc94435c1a8fdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:55 +0000
Subject: [PATCH 09/68] Revert "fix: test runner must not end a sole test
 thread twice"

This reverts commit 295b484147e8786f8d0813969972e018a8198c31.
---
 src/archon/check/test_runner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archon/check/test_runner.cpp b/src/archon/check/test_runner.cpp
index 6ea1d25..d3920ab 100644
--- a/src/archon/check/test_runner.cpp
+++ b/src/archon/check/test_runner.cpp
@@ -354,8 +354,7 @@ bool TestRunner::run() const
         log::Logger& logger = (loggers[0] ? *loggers[0] : m_logger);
         ThreadContextImpl thread_context(root_context, 0, logger, m_config.inner_log_level_limit); // Throws
         thread_context.run(); // Throws
-        if (root_context.last_thread_to_end != -1)
-            thread_context.nonconcur_run(); // Throws
+        thread_context.nonconcur_run(); // Throws
     }
     else {
         std::unique_ptr<std::unique_ptr<ThreadContextImpl>[]> thread_contexts =
-- 
2.43.0


From 8c247e634b0164245a55b4de7839a5894ee086c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:55 +0000
Subject: [PATCH 10/68] fix: test runner must not end a sole test thread twice

When a single test thread was used, and there were no nonconcurrent tests, the
end of the thread was reported twice and its counts were added twice.
---
 src/archon/check/noinst/thread_context_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 4e20308..bc7cfb8 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,6 +79,10 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
+    // When there are no nonconcurrent tests, run() has already ended this thread.
+    if (m_root_context.nonconcur_execs.empty())
+        return;
+
     std::unique_lock lock(m_root_context.mutex); // Throws
 
     for (auto entry : m_root_context.nonconcur_execs)
-- 
2.43.0


From e1a42aa31fa84693e55139c7d9da9589466100df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:54 +0000
Subject: [PATCH 11/68] fix: character decoder must carry its shift state along
 when it stops early

---
 src/archon/core/impl/char_codec.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index f77cdec..6aad256 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -414,7 +414,7 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
                 if (to_next < to_end)
                     goto error;
             }
-            state = state_2;
+            state = state_3;
             data_offset   = std::size_t(from_next - data.data());
             buffer_offset = std::size_t(to_next - buffer.data());
             ARCHON_ASSERT(buffer_offset == buffer.size());
@@ -475,6 +475,10 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
     throw std::runtime_error("Unexpected lack of decoding progress");
 
   error:
+    // Find the shift state at the end of the last completely consumed byte sequence (unless
+    // already done)
+    if (ARCHON_LIKELY(result != std::codecvt_base::ok))
+        m_codecvt->length(state_2, from, from_next, std::size_t(to_next - to)); // Throws
     state = state_2;
     data_offset   = std::size_t(from_next - data.data());
     buffer_offset = std::size_t(to_next - buffer.data());
-- 
2.43.0


From 3c52f61a9c292768c024550ca77de9aa07524361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:54 +0000
Subject: [PATCH 12/68] fix: text file must report how much was written when
 flushing fails

---
 src/archon/core/impl/prim_text_file_impl.cpp | 1 +
 src/archon/core/impl/text_file_impl.hpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/core/impl/prim_text_file_impl.cpp b/src/archon/core/impl/prim_text_file_impl.cpp
index d28e3e4..fab30c2 100644
--- a/src/archon/core/impl/prim_text_file_impl.cpp
+++ b/src/archon/core/impl/prim_text_file_impl.cpp
@@ -163,6 +163,7 @@ bool PrimWindowsTextFileImpl::write(core::Span<const char> data, std::size_t& n,
         if (ARCHON_LIKELY(m_end > 0)) {
             if (ARCHON_LIKELY(do_flush(ec)))
                 continue;
+            n = data_offset;
             return false;
         }
         expand_buffer(); // Throws
diff --git a/src/archon/core/impl/text_file_impl.hpp b/src/archon/core/impl/text_file_impl.hpp
index 9755246..5d52e4d 100644
--- a/src/archon/core/impl/text_file_impl.hpp
+++ b/src/archon/core/impl/text_file_impl.hpp
@@ -457,6 +457,7 @@ bool TextFileImpl2<P, D>::write(core::Span<const char_type> data, std::size_t& n
             if (ARCHON_LIKELY(m_end > 0)) {
                 if (ARCHON_LIKELY(shallow_flush(ec))) // Throws
                     continue;
+                n = data_offset;
                 return false;
             }
             expand_buffer(); // Throws
-- 
2.43.0


From 0c437de2ab85077db0ab340093523728bd9dbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 13/68] fix: text file must return to neutral mode when another
 file is opened

---
 src/archon/core/text_file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archon/core/text_file.hpp b/src/archon/core/text_file.hpp
index ed10f7a..8f51667 100644
--- a/src/archon/core/text_file.hpp
+++ b/src/archon/core/text_file.hpp
@@ -387,6 +387,8 @@ inline void GenericTextFile<I>::open(core::File file, state_type state) noexcept
 {
     m_file = std::move(file);
     m_impl.reset(state);
+    m_reading = false;
+    m_writing = false;
 }
 
 
@@ -503,6 +505,8 @@ inline bool GenericTextFile<I>::try_open(core::FilesystemPathRef path, Mode mode
     if (ARCHON_LIKELY(m_file.try_open(path, mode, ec))) { // Throws
         state_type state = {};
         m_impl.reset(state);
+        m_reading = false;
+        m_writing = false;
         return true; // Success
     }
     return false; // Failure
@@ -516,6 +520,8 @@ inline bool GenericTextFile<I>::try_open(core::FilesystemPathRef path, AccessMod
     if (ARCHON_LIKELY(m_file.try_open(path, access_mode, create_mode, write_mode, ec))) { // Throws
         state_type state = {};
         m_impl.reset(state);
+        m_reading = false;
+        m_writing = false;
         return true; // Success
     }
     return false; // Failure
-- 
2.43.0


From 850f830e08c54db22a1faca1bd72134315917a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 14/68] fix: accept padding in incremental Base64 decoding

The padding characters were never consumed, so padded Base64 was always rejected.
---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..383e593 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -435,12 +436,12 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
     }
     if (ARCHON_LIKELY(!end_of_input))
         return false;
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     if (ARCHON_LIKELY(m_padding_size == 0)) {
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
     return false; // Prematute end of input
 
-- 
2.43.0


From 0e8b55afe55984e7019a46e958519c8809732c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 15/68] fix: do not report insufficient buffer space when
 Base64 decoding fails due to bad input

When the invalid input was met with an exactly full buffer, the failure was misattributed to lack of space.
---
 src/archon/core/base64.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..8bfe7d4 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -288,7 +288,12 @@ inline bool decode(std::string_view data, core::Span<char> buffer, std::size_t&
         size = std::size_t(buffer_begin - buffer.data());
         return true;
     }
-    insufficient_buffer_space = (buffer_begin == buffer_end);
+    // Decoding can fail due to bad input even when the buffer is full, so check whether there
+    // is in fact more output to be produced.
+    char extra = {};
+    buffer_begin = &extra;
+    static_cast<void>(decoder.decode(data_begin, data_end, end_of_input, buffer_begin, &extra + 1));
+    insufficient_buffer_space = (buffer_begin != &extra);
     return false;
 }
 
-- 
2.43.0


From 3116d7cf19b5910ea0b579eb6d21555af7298aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 16/68] fix: construct the right number of elements when a
 vector is resized

Vector::resize() constructed as many elements as the new size instead of the difference, beyond the end of the owned memory.
---
 src/archon/core/impl/vector_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..46defb8 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(size - m_size, data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(size - m_size, value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 5f1f9f5947f8c33037628afe065ba4ca502fec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 17/68] fix: do not reserve too much in Vector::reserve()

The requested total capacity was treated as extra capacity. reserve(size() + n) is documented as having the same effect as reserve_extra(n).
---
 src/archon/core/impl/vector_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index 46defb8..cbf2140 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -185,7 +185,7 @@ inline void VectorImpl<T>::reserve(std::size_t min_capacity)
 {
     if (ARCHON_LIKELY(min_capacity <= m_capacity))
         return;
-    do_reserve_extra(min_capacity); // Throws
+    do_reserve(min_capacity); // Throws
 }
 
 
-- 
2.43.0


From 13445872e779041f2165ee9838021fed3f7be630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 18/68] fix: preserve the contents of a deque when it is
 assigned to itself

---
 src/archon/core/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..a8c489e 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
-- 
2.43.0


From dac91f9893d13ab71fb7fd9e3d5745a95de98f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 19/68] fix: erase near the front of a deque whose contents
 wrap around

When the erased range was in the front-aligned chunk, elements were counted as belonging to the back-aligned chunk although they had already been moved.
---
 src/archon/core/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index a8c489e..d7ab0ff 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1193,8 +1193,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
-- 
2.43.0


From 3b077e2a3ecbcc29c0d176fca48c0bee15396543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:41 +0000
Subject: [PATCH 20/68] fix: erase near the back of a deque whose contents wrap
 around

When the erased range was in the back-aligned chunk, elements that had already been moved were counted as remaining to be moved from the front-aligned chunk.
---
 src/archon/core/deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index d7ab0ff..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1239,7 +1239,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From e1a646a99760334cf73a54c3fb59ac647726a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 21/68] fix: let exceptions thrown by the function passed to
 Buffer::reserve_f() through

The program was terminated instead.
---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..6de56a9 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -597,7 +597,7 @@ template<class T>
 template<class F> inline void Buffer<T>::reserve_f(std::size_t min_size, std::size_t used_size, F&& func,
                                                    std::size_t max_size)
 {
-    reserve_a(min_size, [&](span_type new_mem) noexcept {
+    reserve_a(min_size, [&](span_type new_mem) {
         func(new_mem); // Throws
         std::copy_n(data(), used_size, new_mem.data()); // Throws
     }, max_size); // Throws
-- 
2.43.0


From e4b3ac9ca35bc12a09938648403ed23cff09286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 22/68] fix: reject the end position in Buffer::at()

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index 6de56a9..7d6035a 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From e0e13a08cb2e379f514e646d3d2934ca350e329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 23/68] fix: allow the log level limit to be set when it is not
 fixed

---
 src/archon/log/limit_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index a7ade20..f398f57 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -102,7 +102,7 @@ public:
 
     void set(LogLevel limit) noexcept
     {
-        ARCHON_ASSERT(m_fixed_limit != std::numeric_limits<int>::max());
+        ARCHON_ASSERT(m_fixed_limit == std::numeric_limits<int>::max());
         m_variable_limit.store(limit, std::memory_order_relaxed);
     }
 
-- 
2.43.0


From 09b1e484755bb76c8379de50984b50a20465bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 24/68] fix: leave the selected channel of a limit logger alone
 when it does not match the pattern

---
 src/archon/log/limit_logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index f398f57..dca8e74 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -224,7 +224,8 @@ inline void BasicLimitLogger<C, T>::set_log_level_limit(log::LogLevel limit) noe
 
 template<class C, class T>
 inline BasicLimitLogger<C, T>::BasicLimitLogger(Interm&& i, int fixed_limit) noexcept
-    : logger_type(fixed_limit, m_limit, i.prefix, *i.channel, *this)
+    : logger_type(&i.channel->get_limit() == &m_limit ? fixed_limit : i.channel->get_limit().get_fixed_limit(),
+                  i.channel->get_limit(), i.prefix, *i.channel, *this)
     , m_limit(fixed_limit)
     , m_sinks(std::move(i.sinks))
     , m_channels(std::move(i.channels))
-- 
2.43.0


From 749a0bf1b53e2960a3582ae1ad10026ec1eeb8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:13 +0000
Subject: [PATCH 25/68] fix: make type identifiers agree between translation
 units

---
 src/archon/core/impl/type_ident_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/impl/type_ident_impl.hpp b/src/archon/core/impl/type_ident_impl.hpp
index fa7df37..082cf98 100644
--- a/src/archon/core/impl/type_ident_impl.hpp
+++ b/src/archon/core/impl/type_ident_impl.hpp
@@ -43,7 +43,7 @@ using type_ident_type = std::uintptr_t;
 struct TypeIdentHelper {};
 
 
-template<class> constexpr impl::TypeIdentHelper type_ident_helper;
+template<class> inline constexpr impl::TypeIdentHelper type_ident_helper;
 
 
 template<class T> inline bool try_get_type_ident(impl::type_ident_type& ident) noexcept
-- 
2.43.0


From 55f0b414db0e8428391ecdaf94bb60372720cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:13 +0000
Subject: [PATCH 26/68] fix: reject an image file format that is already
 registered

---
 src/archon/image/file_format_registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/file_format_registry.cpp b/src/archon/image/file_format_registry.cpp
index 8d04d10..8a877d2 100644
--- a/src/archon/image/file_format_registry.cpp
+++ b/src/archon/image/file_format_registry.cpp
@@ -148,7 +148,7 @@ void FileFormatRegistry::register_file_format(const image::FileFormat& format)
     std::string_view ident = format.get_ident();
     std::size_t format_index = m_formats.size();
     auto p = m_format_map.emplace(ident, format_index);
-    bool was_inserted = p.first;
+    bool was_inserted = p.second;
     if (!was_inserted)
         throw std::invalid_argument("File format already registered");
 
-- 
2.43.0


From ec8201986cfb85dd0423fc2b209fbedf84da6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:26 +0000
Subject: [PATCH 27/68] fix: report read errors that occur while an image file
 format is being recognized

---
 src/archon/image/file_format.hpp     |  7 ++++++-
 src/archon/image/file_format_png.cpp | 21 ++++++++++++---------
 src/archon/image/load.cpp            | 18 ++++++++++++------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/archon/image/file_format.hpp b/src/archon/image/file_format.hpp
index d4fd218..61f38ed 100644
--- a/src/archon/image/file_format.hpp
+++ b/src/archon/image/file_format.hpp
@@ -101,7 +101,12 @@ public:
     /// The caller should expect that this function only reads as much of the byte sequence
     /// as it needs in order to decide this question.
     ///
-    virtual bool recognize(core::Source& source) const = 0;
+    /// On success, this function returns `true` after setting \p recognized to indicate
+    /// whether the leading bytes match the file format. On failure, i.e., if the leading
+    /// bytes could not be read, it returns `false` after setting \p ec to an error code that
+    /// reflects the cause of the failure.
+    ///
+    virtual bool try_recognize(core::Source& source, bool& recognized, std::error_code& ec) const = 0;
 
     /// \{
     ///
diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index f2f08a5..edaab31 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -148,16 +148,15 @@ inline auto string_for_interlace_type(png_byte val) -> std::string_view
 }
 
 
-bool recognize(core::Source& source, std::error_code& ec)
+bool try_recognize(core::Source& source, bool& recognized, std::error_code& ec)
 {
     constexpr std::size_t header_size = 8;
     char header[header_size];
     std::size_t n = 0;
     if (ARCHON_LIKELY(source.try_read(header, n, ec))) { // Throws
-        if (ARCHON_LIKELY(n == header_size && png_sig_cmp(to_png_bytep(header), 0, header_size) == 0))
-            return true; // Success
+        recognized = (n == header_size && png_sig_cmp(to_png_bytep(header), 0, header_size) == 0);
+        return true; // Success
     }
-    ec = image::Error::wrong_file_format;
     return false; // Failure
 }
 
@@ -868,8 +867,13 @@ bool load(core::Source& source, std::unique_ptr<image::WritableImage>& image, co
 
     // FIXME: Get background color using `png_get_bKGD()`             
 
-    if (ARCHON_UNLIKELY(!recognize(source, ec)))
-        return false; // Failure (wrong file format)
+    bool recognized = false;
+    if (ARCHON_UNLIKELY(!try_recognize(source, recognized, ec))) // Throws
+        return false; // Failure
+    if (ARCHON_UNLIKELY(!recognized)) {
+        ec = image::Error::wrong_file_format;
+        return false; // Failure
+    }
 
     LoadContext ctx;
     ctx.logger = &logger;
@@ -1184,10 +1188,9 @@ public:
         return g_filename_extensions;
     }
 
-    bool recognize(core::Source& source) const override
+    bool try_recognize(core::Source& source, bool& recognized, std::error_code& ec) const override
     {
-        std::error_code ec; // Dummy
-        return ::recognize(source, ec); // Throws
+        return ::try_recognize(source, recognized, ec); // Throws
     }
 
     bool do_try_load(core::Source& source, std::unique_ptr<image::WritableImage>& image, const std::locale& loc,
diff --git a/src/archon/image/load.cpp b/src/archon/image/load.cpp
index a25b282..b4384ba 100644
--- a/src/archon/image/load.cpp
+++ b/src/archon/image/load.cpp
@@ -95,9 +95,11 @@ bool image::try_load_a(const image::Input& input, std::unique_ptr<image::Writabl
             registry->lookup_by_mime_type(input.mime_type, tray); // Throws
             for (const image::FileFormat* format_2 : tray) {
                 if (ARCHON_LIKELY(!checked_formats.contains(format_2))) {
-                    bool success = format_2->recognize(source); // Throws
+                    bool recognized = false;
+                    if (ARCHON_UNLIKELY(!format_2->try_recognize(source, recognized, ec))) // Throws
+                        return false;
                     source.rewind();
-                    if (success) {
+                    if (recognized) {
                         format = format_2;
                         goto format_found;
                     }
@@ -111,9 +113,11 @@ bool image::try_load_a(const image::Input& input, std::unique_ptr<image::Writabl
             registry->lookup_by_extension(input.filename_extension, tray); // Throws
             for (const image::FileFormat* format_2 : tray) {
                 if (ARCHON_LIKELY(!checked_formats.contains(format_2))) {
-                    bool success = format_2->recognize(source); // Throws
+                    bool recognized = false;
+                    if (ARCHON_UNLIKELY(!format_2->try_recognize(source, recognized, ec))) // Throws
+                        return false;
                     source.rewind();
-                    if (success) {
+                    if (recognized) {
                         format = format_2;
                         goto format_found;
                     }
@@ -126,9 +130,11 @@ bool image::try_load_a(const image::Input& input, std::unique_ptr<image::Writabl
             for (int i = 0; i < n; ++i) {
                 const image::FileFormat& format_2 = registry->get_file_format(i); // Throws
                 if (ARCHON_LIKELY(!checked_formats.contains(&format_2))) {
-                    bool success = format_2.recognize(source); // Throws
+                    bool recognized = false;
+                    if (ARCHON_UNLIKELY(!format_2.try_recognize(source, recognized, ec))) // Throws
+                        return false;
                     source.rewind();
-                    if (success) {
+                    if (recognized) {
                         format = &format_2;
                         goto format_found;
                     }
-- 
2.43.0


From 87db1a25dae89c16a6c4624a650a267db943a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:14 +0000
Subject: [PATCH 28/68] fix: do not let libpng swap bits when an interlaced
 image is saved

---
 src/archon/image/file_format_png.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index edaab31..c9708ce 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -1074,8 +1074,12 @@ bool save(const image::Image& image, core::Sink& sink, const std::locale& loc, l
         if (ARCHON_LIKELY(image.try_get_buffer(buffer_format, buffer_2) &&
                           try_match_save_format(buffer_format, image_size, ctx.format, ctx.xforms,
                                                 ctx.bytes_per_row))) { // Throws
-            buffer = static_cast<const png_byte*>(buffer_2);
-            format_matched = true;
+            // When interlacing is turned on, libpng picks out the pixels of each pass before
+            // it swaps the bits, i.e., at the wrong positions.
+            if (ARCHON_LIKELY(!config.use_adam7_interlacing || !ctx.xforms.swap_bits)) {
+                buffer = static_cast<const png_byte*>(buffer_2);
+                format_matched = true;
+            }
         }
     }
     if (!format_matched) {
-- 
2.43.0


From 963d16d19f7f413c6d252a3fff1d094909519f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 29/68] fix: do not jump out of libpng when a warning cannot be
 logged

---
 src/archon/image/file_format_png.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index c9708ce..d699ed2 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -482,12 +482,13 @@ void warning_callback(png_structp png_ptr, png_const_charp message) noexcept
     Context& ctx = *static_cast<Context*>(png_get_error_ptr(png_ptr));
     try {
         ctx.logger->warn("%s", std::string_view(message)); // Throws
-        return;
     }
     catch (...) {
-        ctx.exception = std::current_exception();
+        // Jumping out of libpng is not an option here, because libpng and zlib issue
+        // warnings while they hold on to memory that they will then not get to release.
+        if (ARCHON_LIKELY(!ctx.exception))
+            ctx.exception = std::current_exception();
     }
-    std::longjmp(png_jmpbuf(png_ptr), 1);
 }
 
 
@@ -882,13 +883,13 @@ bool load(core::Source& source, std::unique_ptr<image::WritableImage>& image, co
     ctx.source = &source;
     ctx.locale = &loc;
 
-    if (ARCHON_LIKELY(do_load(ctx))) { // Throws
+    bool success = do_load(ctx); // Throws
+    if (ARCHON_UNLIKELY(ctx.exception))
+        std::rethrow_exception(std::move(ctx.exception)); // Throws
+    if (ARCHON_LIKELY(success)) {
         image = std::move(ctx.image_2);
         return true; // Success
     }
-
-    if (ARCHON_UNLIKELY(ctx.exception))
-        std::rethrow_exception(std::move(ctx.exception)); // Throws
     ARCHON_ASSERT(ctx.has_error);
     ec = ctx.ec;
     return false; // Failure
@@ -1149,11 +1150,11 @@ bool save(const image::Image& image, core::Sink& sink, const std::locale& loc, l
 
     ctx.use_interlacing = config.use_adam7_interlacing;
 
-    if (ARCHON_LIKELY(do_save(ctx))) // Throws
-        return true; // Success
-
+    bool success = do_save(ctx); // Throws
     if (ARCHON_UNLIKELY(ctx.exception))
         std::rethrow_exception(std::move(ctx.exception)); // Throws
+    if (ARCHON_LIKELY(success))
+        return true; // Success
     ARCHON_ASSERT(ctx.has_error);
     ec = ctx.ec;
     return false; // Failure
-- 
2.43.0


From 4242f4c75558111c3c42d3a38a85cca07e0c10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:56 +0000
Subject: [PATCH 30/68] fix: let setting the orientation arrest the trackball
 before the engine is run

---
 src/archon/render/noinst/engine_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index d0b8c2d..32ab7a9 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -314,6 +314,7 @@ void EngineImpl::set_orientation(const math::Rotation& orientation)
 {
     m_orientation = orientation;
     m_trackball.set_orientation(orientation);
+    m_spin = {}; // Setting the orientation arrests the trackball
     m_need_redraw = true;
 }
 
-- 
2.43.0


From 6550779467743f779b000e59638d82d7d99a0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 31/68] fix: report the release of a key that is rebound while
 it is pressed down

---
 src/archon/render/impl/key_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index 36dfec1..f861013 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -208,7 +208,10 @@ bool KeyBindings::resume_incomplete_on_blur()
 
 void KeyBindings::KeySlot::on_reconfigured() noexcept
 {
-    reset_key_state();
+    // If the key is currently pressed down, it must remain marked as such, because the
+    // handler that was told that the key was pressed down needs to be told when it is
+    // released.
+    multiplicity = 0;
     max_multiplicity = 0;
     for (const auto& entry : handlers) {
         const Subkey& subkey = entry.first;
-- 
2.43.0


From 4370e2e31bd5d750820334b18895f33baeae6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 32/68] fix: allow a key handler to register and bind key
 handlers

---
 src/archon/render/impl/key_bindings.cpp | 11 +++++++----
 src/archon/render/impl/key_bindings.hpp |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index f861013..a9ced08 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -22,6 +22,7 @@
 #include <utility>
 #include <stdexcept>
 #include <functional>
+#include <memory>
 #include <string_view>
 #include <string>
 #include <chrono>
@@ -92,7 +93,8 @@ auto KeyBindings::register_handler(std::string_view label, std::function<bool(bo
     decltype(render::KeyHandlerIdent::value) handler_index = {};
     core::int_cast(m_handlers.size(), handler_index); // Throws
     auto label_2 = std::string(label); // Throws
-    m_handlers.push_back({ std::move(func), std::move(label_2) }); // Throws
+    auto handler = std::make_unique<KeyHandler>(KeyHandler { std::move(func), std::move(label_2) }); // Throws
+    m_handlers.push_back(std::move(handler)); // Throws
     return { handler_index };
 }
 
@@ -176,7 +178,7 @@ template<bool down> inline bool KeyBindings::on_key(const KeyIdent& key_ident, T
     }
 
     ARCHON_ASSERT(slot.handler_index >= 0);
-    const KeyHandler& handler = m_handlers[slot.handler_index];
+    const KeyHandler& handler = *m_handlers[slot.handler_index];
     return handler.func(down); // Throws
 }
 
@@ -185,6 +187,7 @@ bool KeyBindings::resume_incomplete_on_blur()
 {
     ARCHON_ASSERT(m_on_blur_in_progress);
 
+  again:
     for (auto& entry : m_key_slots) {
         KeySlot& slot = entry.second;
         bool was_pressed = slot.is_pressed;
@@ -192,11 +195,11 @@ bool KeyBindings::resume_incomplete_on_blur()
         slot.reset_key_state();
         if (ARCHON_LIKELY(!was_pressed || handler_index < 0))
             continue;
-        const KeyHandler& handler = m_handlers[handler_index];
+        const KeyHandler& handler = *m_handlers[handler_index];
         bool down = false;
         bool proceed = handler.func(down); // Throws
         if (ARCHON_LIKELY(proceed))
-            continue;
+            goto again; // The handler may have bound keys, which may have moved the slots
         return false; // Interrupt event processing
     }
 
diff --git a/src/archon/render/impl/key_bindings.hpp b/src/archon/render/impl/key_bindings.hpp
index de4b754..d463299 100644
--- a/src/archon/render/impl/key_bindings.hpp
+++ b/src/archon/render/impl/key_bindings.hpp
@@ -23,6 +23,7 @@
 
 
 #include <functional>
+#include <memory>
 #include <string_view>
 #include <vector>
 
@@ -79,7 +80,9 @@ private:
     struct KeyHandler;
     struct KeySlot;
 
-    std::vector<KeyHandler> m_handlers;
+    // Key handlers are allowed to register new key handlers while they execute, so they must
+    // not be moved when that happens.
+    std::vector<std::unique_ptr<KeyHandler>> m_handlers;
 
     core::FlatMap<KeyIdent, KeySlot> m_key_slots;
 
-- 
2.43.0


From 07fad5f1ce34741719a0c2f3ab19f6bd06a8cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 33/68] fix: make combinations of modifier keys work

---
 src/archon/render/noinst/engine_impl.cpp | 68 +++++++++++-------------
 src/archon/render/noinst/engine_impl.hpp |  8 +++
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index 32ab7a9..5863817 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -106,26 +106,26 @@ bool EngineImpl::try_init(std::string_view window_title, display::Size window_si
     handler = register_builtin_key_handler(BuiltinKeyHandler::shift_modifier,
                                            "Shift modifier mode",
                                            &EngineImpl::key_func_shift_modifier); // Throws
-    bind_key(display::Key::shift_left, handler); // Throws
-    bind_key(display::Key::shift_right, handler); // Throws
+    bind_modifier_key(display::Key::shift_left, handler); // Throws
+    bind_modifier_key(display::Key::shift_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::control_modifier,
                                            "Control modifier mode",
                                            &EngineImpl::key_func_control_modifier); // Throws
-    bind_key(display::Key::ctrl_left, handler); // Throws
-    bind_key(display::Key::ctrl_right, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_left, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::alt_modifier,
                                            "Alt modifier mode",
                                            &EngineImpl::key_func_alt_modifier); // Throws
-    bind_key(display::Key::alt_left, handler); // Throws
-    bind_key(display::Key::alt_right, handler); // Throws
+    bind_modifier_key(display::Key::alt_left, handler); // Throws
+    bind_modifier_key(display::Key::alt_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::meta_modifier,
                                            "Meta modifier mode",
                                            &EngineImpl::key_func_meta_modifier); // Throws
-    bind_key(display::Key::meta_left, handler); // Throws
-    bind_key(display::Key::meta_right, handler); // Throws
+    bind_modifier_key(display::Key::meta_left, handler); // Throws
+    bind_modifier_key(display::Key::meta_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::quit,
                                            "Quit application",
@@ -537,58 +537,54 @@ auto EngineImpl::register_builtin_key_handler(BuiltinKeyHandler ident, std::stri
 }
 
 
-bool EngineImpl::key_func_shift_modifier(bool down)
+void EngineImpl::bind_modifier_key(display::Key key, render::KeyHandlerIdent handler)
+{
+    // A modifier key must work regardless of which modifier keys are already pressed down
+    auto all = render::modif_shift | render::modif_ctrl | render::modif_alt | render::modif_meta;
+    for (unsigned value = 0; value <= all.value; ++value)
+        bind_key(key, render::KeyModifierMode { value }, render::single_tap, handler); // Throws
+}
+
+
+void EngineImpl::update_modifier_mode(render::KeyModifierMode modifier, int& num_keys_down, bool down) noexcept
 {
+    // There can be multiple keys for the same modifier (left and right)
+    num_keys_down += (down ? 1 : -1);
     auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_shift;
+    if (num_keys_down > 0) {
+        mode = mode | modifier;
     }
     else {
-        mode = mode & ~render::modif_shift;
+        mode = mode & ~modifier;
     }
     m_key_bindings.set_modifier_mode(mode);
+}
+
+
+bool EngineImpl::key_func_shift_modifier(bool down)
+{
+    update_modifier_mode(render::modif_shift, m_num_shift_keys_down, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_control_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_ctrl;
-    }
-    else {
-        mode = mode & ~render::modif_ctrl;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier_mode(render::modif_ctrl, m_num_control_keys_down, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_alt_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_alt;
-    }
-    else {
-        mode = mode & ~render::modif_alt;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier_mode(render::modif_alt, m_num_alt_keys_down, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_meta_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_meta;
-    }
-    else {
-        mode = mode & ~render::modif_meta;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier_mode(render::modif_meta, m_num_meta_keys_down, down);
     return true;
 }
 
diff --git a/src/archon/render/noinst/engine_impl.hpp b/src/archon/render/noinst/engine_impl.hpp
index 5755cf1..3e2dab7 100644
--- a/src/archon/render/noinst/engine_impl.hpp
+++ b/src/archon/render/noinst/engine_impl.hpp
@@ -165,6 +165,11 @@ private:
     bool m_wireframe_mode = false;
     bool m_wireframe_mode_prev = false;
 
+    int m_num_shift_keys_down = 0;
+    int m_num_control_keys_down = 0;
+    int m_num_alt_keys_down = 0;
+    int m_num_meta_keys_down = 0;
+
     int m_max_opengl_errors = 8;
 
     static auto instantiate_fallback_logger(std::unique_ptr<log::FileLogger>&, const std::locale&) -> log::Logger&;
@@ -174,6 +179,9 @@ private:
     auto register_builtin_key_handler(BuiltinKeyHandler ident, std::string_view label,
                                       bool (EngineImpl::* func)(bool down)) -> render::KeyHandlerIdent;
 
+    void bind_modifier_key(display::Key, render::KeyHandlerIdent);
+    void update_modifier_mode(render::KeyModifierMode modifier, int& num_keys_down, bool down) noexcept;
+
     bool key_func_shift_modifier(bool down);
     bool key_func_control_modifier(bool down);
     bool key_func_alt_modifier(bool down);
-- 
2.43.0


From ee2fa1fa649732721f9a8c711a262551d0f1422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 34/68] fix: track changes of the configuration of the default
 screen

---
 src/archon/render/noinst/engine_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index 5863817..6fee52f 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -469,7 +469,10 @@ bool EngineImpl::EventHandler::on_close(const display::WindowEvent&)
 
 bool EngineImpl::EventHandler::on_screen_change(int screen)
 {
-    if (screen == m_engine.m_screen) {
+    int screen_2 = m_engine.m_screen;
+    if (screen_2 < 0)
+        screen_2 = m_engine.m_conn.get_default_screen(); // Throws
+    if (screen == screen_2) {
         m_engine.fetch_screen_conf(); // Throws
         m_engine.track_screen_conf(); // Throws
     }
-- 
2.43.0


From 55a7130e721e4ca6c64a3c73a9f749e86799f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 35/68] fix: accept a negative screen index in
 try_get_screen_conf() of SDL-based implementation

---
 src/archon/display/sdl_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 1375274..236fc68 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -511,7 +511,7 @@ int ConnectionImpl::get_default_screen() const
 bool ConnectionImpl::try_get_screen_conf(int screen, core::Buffer<display::Viewport>&, core::Buffer<char>&,
                                          std::size_t&) const
 {
-    if (ARCHON_UNLIKELY(screen != 0))
+    if (ARCHON_UNLIKELY(screen > 0))
         throw std::invalid_argument("Bad screen index");
 
     // NOTE: Currently no support for screen configuration in SDL-based
-- 
2.43.0


From 32600fb04e9b5e59cd3ea476ae697d24d23650b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:46 +0000
Subject: [PATCH 36/68] fix: accept a negative screen index in
 try_get_screen_conf() of X11-based implementation

---
 src/archon/display/x11_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 34a40ec..5b77226 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -786,7 +786,7 @@ bool ConnectionImpl::try_get_screen_conf(int screen, core::Buffer<display::Viewp
 
 #if HAVE_XRANDR
     if (m_extension_info.have_xrandr) {
-        const ScreenSlot& slot = ensure_screen_slot(screen); // Throws
+        const ScreenSlot& slot = ensure_screen_slot(screen_2); // Throws
         const x11::ScreenConf& conf = slot.screen_conf;
         std::size_t n = conf.viewports.size();
         viewports.reserve(n); // Throws
-- 
2.43.0


From 16415dac24d98f77bec4710f4ed9db2a6aa3fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:09 +0000
Subject: [PATCH 37/68] fix: do not give the trackball an infinite spin when it
 is released at the time it was acquired

---
 src/archon/render/virt_trackball.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archon/render/virt_trackball.cpp b/src/archon/render/virt_trackball.cpp
index 5147ec3..b6b0846 100644
--- a/src/archon/render/virt_trackball.cpp
+++ b/src/archon/render/virt_trackball.cpp
@@ -121,6 +121,12 @@ void VirtualTrackball::release(Clock::time_point now) noexcept
         return;
     }
 
+    // If no measurable amount of time has passed, no velocity can be determined.
+    if (m_track_millis <= 0) {
+        m_spin.angle = 0;
+        return;
+    }
+
     // Get position of mouse 100 milliseconds before last known position.
     long millis = g_millis_back;
     // But be carefull not to extrapolate into the past before the ball was acquired.
-- 
2.43.0


From 89acc2b8c831b8a1fe3a237b21cc7e6e349c98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:23 +0000
Subject: [PATCH 38/68] fix: ignore unknown mouse buttons in SDL-based display
 implementation

---
 src/archon/display/sdl_implementation.cpp | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 236fc68..7f9b01c 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -126,7 +126,7 @@ void init_rect(SDL_Rect* rect, const display::Box& area) noexcept
 
 bool map_key(display::KeyCode, display::Key&) noexcept;
 bool rev_map_key(display::Key, display::KeyCode&) noexcept;
-auto map_mouse_button(Uint8 button) noexcept -> display::MouseButton;
+bool map_mouse_button(Uint8 button, display::MouseButton&) noexcept;
 
 
 class ImplementationImpl final
@@ -615,10 +615,11 @@ bool ConnectionImpl::process_event_batch()
         case SDL_MOUSEBUTTONUP:
             if (ARCHON_LIKELY(lookup_window(event.button.windowID, window))) {
                 display::MouseButtonEvent event_2;
+                if (ARCHON_UNLIKELY(!map_mouse_button(event.button.button, event_2.button)))
+                    break; // Ignore buttons that have no representation in `display::MouseButton`
                 event_2.cookie = window->cookie;
                 event_2.timestamp = unwrap_session.unwrap_next_timestamp(event.button.timestamp); // Throws
                 event_2.pos = { event.button.x, event.button.y };
-                event_2.button = map_mouse_button(event.button.button);
                 bool proceed;
                 if (event.type == SDL_MOUSEBUTTONDOWN) {
                     proceed = window->event_handler->on_mousedown(event_2); // Throws
@@ -1581,22 +1582,26 @@ inline bool rev_map_key(display::Key key, display::KeyCode& key_code) noexcept
 }
 
 
-inline auto map_mouse_button(Uint8 button) noexcept -> display::MouseButton
+inline bool map_mouse_button(Uint8 button, display::MouseButton& button_2) noexcept
 {
     switch (button) {
         case SDL_BUTTON_LEFT:
-            return display::MouseButton::left;
+            button_2 = display::MouseButton::left;
+            return true;
         case SDL_BUTTON_MIDDLE:
-            return display::MouseButton::middle;
+            button_2 = display::MouseButton::middle;
+            return true;
         case SDL_BUTTON_RIGHT:
-            return display::MouseButton::right;
+            button_2 = display::MouseButton::right;
+            return true;
         case SDL_BUTTON_X1:
-            return display::MouseButton::x1;
+            button_2 = display::MouseButton::x1;
+            return true;
         case SDL_BUTTON_X2:
-            return display::MouseButton::x2;
+            button_2 = display::MouseButton::x2;
+            return true;
     }
-    ARCHON_ASSERT_UNREACHABLE();
-    return {};
+    return false;
 }
 
 
-- 
2.43.0


From c0e0c2b2f68f42e434d62ff332d42d3db6f3232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:14 +0000
Subject: [PATCH 39/68] fix: do not return before deadline has expired in
 SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 7f9b01c..a25c247 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -874,12 +874,9 @@ bool ConnectionImpl::wait_for_events(time_point_type deadline)
         time_point_type now = clock_type::now();
         if (ARCHON_LIKELY(now < deadline)) {
             int timeout = core::int_max<int>();
-            bool complete = false;
             auto duration = std::chrono::ceil<std::chrono::milliseconds>(deadline - now).count();
-            if (ARCHON_LIKELY(core::int_less_equal(duration, timeout))) {
+            if (ARCHON_LIKELY(core::int_less_equal(duration, timeout)))
                 timeout = int(duration);
-                complete = true;
-            }
             // FIXME: There is something broken about the design of
             // SDL_WaitEventTimeout(). According to the documentation, when that function
             // returns zero, it means that an error occurred or the timeout was reached,
@@ -897,8 +894,8 @@ bool ConnectionImpl::wait_for_events(time_point_type deadline)
             if (ARCHON_LIKELY(ret == 1))
                 return true; // Events are available
             ARCHON_ASSERT(ret == 0);
-            if (ARCHON_LIKELY(complete))
-                break;
+            // SDL measures time in whole milliseconds using its own clock, so the wait may
+            // have ended slightly before the expiration of the deadline.
             continue;
         }
         break;
-- 
2.43.0


From 9d4f17069d32bfbefc201221a0b95706cf8610f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 40/68] fix: do not lose events when memory runs out in
 SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index a25c247..4b9dd30 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -543,19 +543,19 @@ void ConnectionImpl::fetch_event_batch()
     // requirements for display::Connection::process_events_a().
     //
     if (ARCHON_LIKELY(m_num_events == 0)) {
-        std::size_t i = 0;
-        while (i < s_max_events) {
-            m_events.reserve_extra(1, i, s_max_events); // Throws
-            int ret = SDL_PollEvent(&m_events[i]); // Non-blocking
+        m_next_event = 0;
+        // `m_num_events` is updated for each event, so that no events are lost if the
+        // expansion of the buffer fails
+        while (m_num_events < s_max_events) {
+            m_events.reserve_extra(1, m_num_events, s_max_events); // Throws
+            int ret = SDL_PollEvent(&m_events[m_num_events]); // Non-blocking
             if (ARCHON_LIKELY(ret == 1)) {
-                i += 1;
+                m_num_events += 1;
                 continue;
             }
             ARCHON_ASSERT(ret == 0);
             break;
         }
-        m_num_events = i;
-        m_next_event = 0;
     }
 }
 
-- 
2.43.0


From 5ee210e4dac2fc7822c149c39394dbb72d06bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 41/68] fix: ignore keys without associated symbol in X11-based
 display implementation

---
 src/archon/display/x11_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 5b77226..0d14209 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1198,7 +1198,8 @@ bool ConnectionImpl::process_event_batch()
                 unsigned group = XkbGroup1Index;
                 unsigned level = 0;
                 KeySym keysym = XkbKeycodeToKeysym(dpy, ev.xkey.keycode, group, level);
-                ARCHON_ASSERT(keysym != NoSymbol);
+                if (ARCHON_UNLIKELY(keysym == NoSymbol))
+                    break; // No symbol is associated with this key
                 display::KeyEvent event;
                 event.cookie = window->cookie;
                 event.timestamp = timestamp;
-- 
2.43.0


From bdea453a588c9c66759d6feb5e6035307c6c001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 42/68] fix: report scrolling once per wheel step in X11-based
 display implementation

---
 src/archon/display/x11_implementation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 0d14209..976b547 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1102,6 +1102,9 @@ bool ConnectionImpl::process_event_batch()
                 math::Vector2F amount;
                 if (ARCHON_LIKELY(try_map_mouse_button(ev.xbutton.button, is_scroll, button, amount))) {
                     if (ARCHON_LIKELY(is_scroll)) {
+                        // Scrolling is reported as "press" immediately followed by "release"
+                        if (ev.type != ButtonPress)
+                            break;
                         display::ScrollEvent event;
                         event.cookie = window->cookie;
                         event.timestamp = unwrap_session.unwrap_next_timestamp(ev.xbutton.time); // Throws
-- 
2.43.0


From 68a12aed55b2d995c20f63cdb64a404caa969bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 43/68] fix: handle rotated and reflected screens in X11-based
 display implementation

---
 src/archon/display/noinst/x11/support.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 6effc4d..b805318 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2122,19 +2122,9 @@ bool try_update_screen_conf(Display* dpy, ::Window root, Atom atom_edid, const i
         if (info->mm_width != 0 && info->mm_height != 0) {
             unsigned long mm_width  = info->mm_width;
             unsigned long mm_height = info->mm_height;
-            switch (crtc->rotation) {
-                case RR_Rotate_0:
-                case RR_Rotate_180:
-                case RR_Reflect_X:
-                case RR_Reflect_Y:
-                    break;
-                case RR_Rotate_90:
-                case RR_Rotate_270:
-                    std::swap(mm_width, mm_height);
-                    break;
-                default:
-                    ARCHON_ASSERT_UNREACHABLE();
-            }
+            // A rotation can be combined with reflections
+            if ((crtc->rotation & (RR_Rotate_90 | RR_Rotate_270)) != 0)
+                std::swap(mm_width, mm_height);
             double horz_ppcm = crtc->bounds.size.width  / double(mm_width)  * 10;
             double vert_ppcm = crtc->bounds.size.height / double(mm_height) * 10;
             resolution = display::Resolution { horz_ppcm, vert_ppcm };
-- 
2.43.0


From 25a338384f56828e17995d5c98fd6e76a99e5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 44/68] fix: check message type of close requests in X11-based
 display implementation

---
 src/archon/display/x11_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 976b547..aac623c 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1274,7 +1274,8 @@ bool ConnectionImpl::process_event_batch()
             break;
 
         case ClientMessage:
-            bool is_close = (ev.xclient.format == 32 && Atom(ev.xclient.data.l[0]) == atom_wm_delete_window);
+            bool is_close = (ev.xclient.message_type == atom_wm_protocols && ev.xclient.format == 32 &&
+                             Atom(ev.xclient.data.l[0]) == atom_wm_delete_window);
             if (ARCHON_LIKELY(is_close && lookup_window(ev.xclient.window, window))) {
                 display::WindowEvent event;
                 event.cookie = window->cookie;
-- 
2.43.0


From 199ccb865e0860dc0311e741321b908aa9d6b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 45/68] fix: retry when video mode disappears while fetching
 screen configuration in X11-based display implementation

---
 src/archon/display/noinst/x11/support.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index b805318..f5cadf0 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2077,7 +2077,8 @@ bool try_update_screen_conf(Display* dpy, ::Window root, Atom atom_edid, const i
                     refresh_rate = mode.dotClock / (mode.hTotal * double(mode.vTotal));
                 break;
             }
-            ARCHON_ASSERT(found);
+            if (ARCHON_UNLIKELY(!found))
+                return nullptr; // Configuration was changed since resources were fetched
         }
         ARCHON_STEADY_ASSERT(crtcs.size() < crtcs.capacity());
         Crtc& crtc =  crtcs[id];
-- 
2.43.0


From 0f743ee1257c044139d279ea6698cf7c666557bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 46/68] fix: allow for interruption of event processing on
 screen change in X11-based display implementation

---
 src/archon/display/x11_implementation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index aac623c..ad2a0ae 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1298,8 +1298,11 @@ bool ConnectionImpl::process_event_batch()
                 int screen = i->second;
                 ARCHON_ASSERT(screen >= 0 && screen < ScreenCount(dpy));
                 ScreenSlot& slot = m_screen_slots[screen];
-                if (update_screen_conf(slot)) // Throws
-                    event_handler->on_screen_change(screen); // Throws
+                if (update_screen_conf(slot)) { // Throws
+                    bool proceed = event_handler->on_screen_change(screen); // Throws
+                    if (ARCHON_UNLIKELY(!proceed))
+                        return false; // Interrupt
+                }
         }
     }
 #endif // HAVE_XRANDR
-- 
2.43.0


From 0e4a41f959691c644a4e47c3acc66c6421071680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 47/68] fix: tolerate pointer grabs that end early in X11-based
 display implementation

---
 src/archon/display/x11_implementation.cpp | 48 ++++++++++++++---------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index ad2a0ae..69aac38 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -24,6 +24,7 @@
 #include <cstdint>
 #include <algorithm>
 #include <memory>
+#include <bitset>
 #include <utility>
 #include <stdexcept>
 #include <optional>
@@ -355,7 +356,11 @@ private:
     // display implementations is to generate the "mouse out" event when the grab ends. See
     // also display::EventHandler::on_mouseover().
     //
-    core::FlatSet<::Window> m_pointer_grab_buttons;
+    // Note: A grab ends when all buttons have been released, but it also ends if the window
+    // that has the grab ceases to be viewable, and in that case, the buttons can be released
+    // later without this being seen, or be released in a different window.
+    //
+    std::bitset<256> m_pointer_grab_buttons;
     ::Window m_pointer_grab_window_id = {};
 
     // A queue of windows with pending expose events (push to back and pop from
@@ -398,7 +403,8 @@ private:
     bool process_event_batch();
     bool after_event_batch();
     bool lookup_window(::Window window_id, WindowImpl*& window) noexcept;
-    void track_pointer_grabs(::Window window_id, unsigned button, bool is_press);
+    void track_pointer_grabs(::Window window_id, unsigned button, bool is_press) noexcept;
+    void end_pointer_grab(::Window window_id) noexcept;
     bool is_pointer_grabbed() const noexcept;
 
 #if HAVE_XRANDR
@@ -625,8 +631,7 @@ inline void ConnectionImpl::unregister_window(WindowImpl& window) noexcept
     std::size_t n = m_windows.erase(id);
     ARCHON_ASSERT(n == 1);
 
-    if (ARCHON_UNLIKELY(m_pointer_grab_window_id == id))
-        m_pointer_grab_buttons.clear();
+    end_pointer_grab(id);
 
     auto i = std::find(m_exposed_windows.begin(), m_exposed_windows.end(), &window);
     if (i != m_exposed_windows.end())
@@ -1087,6 +1092,10 @@ bool ConnectionImpl::process_event_batch()
             }
             break;
 
+        case UnmapNotify:
+            end_pointer_grab(ev.xunmap.window);
+            break;
+
         case Expose:
             if (ARCHON_LIKELY(!lookup_window(ev.xexpose.window, window)))
                 break;
@@ -1096,7 +1105,7 @@ bool ConnectionImpl::process_event_batch()
         case ButtonPress:
         case ButtonRelease:
             if (ARCHON_LIKELY(lookup_window(ev.xbutton.window, window))) {
-                track_pointer_grabs(ev.xbutton.window, ev.xbutton.button, ev.type == ButtonPress); // Throws
+                track_pointer_grabs(ev.xbutton.window, ev.xbutton.button, ev.type == ButtonPress);
                 bool is_scroll = {};
                 display::MouseButton button = {};
                 math::Vector2F amount;
@@ -1351,27 +1360,30 @@ bool ConnectionImpl::lookup_window(::Window window_id, WindowImpl*& window) noex
 }
 
 
-void ConnectionImpl::track_pointer_grabs(::Window window_id, unsigned button, bool is_press)
+void ConnectionImpl::track_pointer_grabs(::Window window_id, unsigned button, bool is_press) noexcept
 {
-    ARCHON_ASSERT(!is_pointer_grabbed() || window_id == m_pointer_grab_window_id);
-    if (is_press) {
-        bool grab_in_progress = is_pointer_grabbed();
-        auto p = m_pointer_grab_buttons.insert(button); // Throws
-        bool was_inserted = p.second;
-        ARCHON_ASSERT(was_inserted);
-        if (ARCHON_LIKELY(!grab_in_progress))
-            m_pointer_grab_window_id = window_id;
+    ARCHON_ASSERT(button < m_pointer_grab_buttons.size());
+    // During a grab, all button events go to the window that has the grab
+    if (ARCHON_UNLIKELY(window_id != m_pointer_grab_window_id)) {
+        m_pointer_grab_buttons.reset();
+        m_pointer_grab_window_id = window_id;
     }
-    else {
-        auto n = m_pointer_grab_buttons.erase(button);
-        ARCHON_ASSERT(n == 1);
+    m_pointer_grab_buttons[button] = is_press;
+}
+
+
+void ConnectionImpl::end_pointer_grab(::Window window_id) noexcept
+{
+    if (ARCHON_UNLIKELY(window_id == m_pointer_grab_window_id)) {
+        m_pointer_grab_buttons.reset();
+        m_pointer_grab_window_id = {};
     }
 }
 
 
 inline bool ConnectionImpl::is_pointer_grabbed() const noexcept
 {
-    return !m_pointer_grab_buttons.empty();
+    return m_pointer_grab_buttons.any();
 }
 
 
-- 
2.43.0


From d84a4cc00019f39e84dc5415e06f52951c78a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 48/68] fix: do not pass empty window size to X11

---
 src/archon/display/x11_implementation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 69aac38..40f3807 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1450,8 +1450,9 @@ void WindowImpl::create(display::Size size, const Config& config, bool enable_do
 
     ::Window parent = screen_slot.root;
     int x = 0, y = 0;
-    unsigned width  = unsigned(adjusted_size.width);
-    unsigned height = unsigned(adjusted_size.height);
+    // X11 does not allow for the width or the height of a window to be zero
+    unsigned width  = unsigned(std::max(adjusted_size.width, 1));
+    unsigned height = unsigned(std::max(adjusted_size.height, 1));
     unsigned border_width = 0;
     int depth = visual_spec.info.depth;
     unsigned class_ = InputOutput;
@@ -1586,8 +1587,9 @@ void WindowImpl::set_size(display::Size size)
 {
     if (ARCHON_UNLIKELY(size.width < 0 || size.height < 0))
         throw std::invalid_argument("Bad window size");
-    unsigned w = unsigned(size.width);
-    unsigned h = unsigned(size.height);
+    // X11 does not allow for the width or the height of a window to be zero
+    unsigned w = unsigned(std::max(size.width, 1));
+    unsigned h = unsigned(std::max(size.height, 1));
     XResizeWindow(conn.dpy, win, w, h);
 }
 
-- 
2.43.0


From b3e68ed2a67357f6310ea556e236fe0c066e99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 49/68] fix: do not pass empty texture to X11

---
 src/archon/display/x11_implementation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 40f3807..89b03d8 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1705,6 +1705,8 @@ void WindowImpl::do_fill(util::Color color, int x, int y, unsigned w, unsigned h
 
 void WindowImpl::do_put_texture(const TextureImpl& tex, const display::Box& source_area, const display::Pos& pos)
 {
+    if (ARCHON_UNLIKELY(source_area.is_empty()))
+        return; // There is no pixmap when the texture is empty
     GC gc = ensure_graphics_context();
     int src_x = source_area.pos.x, src_y = source_area.pos.y;
     unsigned width = unsigned(source_area.size.width), height = unsigned(source_area.size.height);
-- 
2.43.0


From 74a5f6db9f30ac0377acdca281ebd1bce9ab1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 50/68] fix: clip areas that are too big for X11 drawing
 requests

---
 src/archon/display/x11_implementation.cpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 89b03d8..6f0ae52 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -414,6 +414,13 @@ private:
 };
 
 
+// Coordinates and sizes in drawing requests are 16-bit integers in the X11 protocol. Areas
+// therefore need to be clipped before they are passed to X11. No part of a window can fall
+// outside this box.
+//
+constexpr display::Box max_window_box = { display::Size(32767, 32767) };
+
+
 class WindowImpl final
     : private display::WindowEventHandler
     , public display::Window {
@@ -1615,10 +1622,13 @@ void WindowImpl::fill(util::Color color)
 void WindowImpl::fill(util::Color color, const display::Box& area)
 {
     if (ARCHON_LIKELY(area.is_valid())) {
-        int x = area.pos.x;
-        int y = area.pos.y;
-        unsigned w = unsigned(area.size.width);
-        unsigned h = unsigned(area.size.height);
+        display::Box area_2 = area;
+        if (ARCHON_UNLIKELY(!max_window_box.clip(area_2)))
+            return;
+        int x = area_2.pos.x;
+        int y = area_2.pos.y;
+        unsigned w = unsigned(area_2.size.width);
+        unsigned h = unsigned(area_2.size.height);
         do_fill(color, x, y, w, h); // Throws
         return;
     }
@@ -1707,10 +1717,14 @@ void WindowImpl::do_put_texture(const TextureImpl& tex, const display::Box& sour
 {
     if (ARCHON_UNLIKELY(source_area.is_empty()))
         return; // There is no pixmap when the texture is empty
+    display::Box target_area = { pos, source_area.size };
+    if (ARCHON_UNLIKELY(!max_window_box.clip(target_area)))
+        return;
     GC gc = ensure_graphics_context();
-    int src_x = source_area.pos.x, src_y = source_area.pos.y;
-    unsigned width = unsigned(source_area.size.width), height = unsigned(source_area.size.height);
-    int dest_x = pos.x, dest_y = pos.y;
+    int src_x = source_area.pos.x + (target_area.pos.x - pos.x);
+    int src_y = source_area.pos.y + (target_area.pos.y - pos.y);
+    unsigned width = unsigned(target_area.size.width), height = unsigned(target_area.size.height);
+    int dest_x = target_area.pos.x, dest_y = target_area.pos.y;
     XCopyArea(conn.dpy, tex.pixmap, m_drawable, gc, src_x, src_y, width, height, dest_x, dest_y);
 }
 
-- 
2.43.0


From 810f019fe48d9bfb69df2c51fb2b1ec0af9c9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 51/68] fix: allow for empty textures in SDL-based display
 implementation

---
 src/archon/display/sdl_implementation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 4b9dd30..5849504 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -1178,6 +1178,8 @@ void WindowImpl::do_put_texture(const TextureImpl& tex, const display::Box& sour
                                 const display::Box& target_area)
 {
     ARCHON_ASSERT(&tex.win.conn.impl == &conn.impl);
+    if (ARCHON_UNLIKELY(source_area.is_empty()))
+        return;
     ARCHON_ASSERT(m_renderer);
     SDL_Rect src_rect, dst_rect;
     init_rect(&src_rect, source_area);
@@ -1208,6 +1210,8 @@ TextureImpl::~TextureImpl() noexcept
 
 void TextureImpl::create()
 {
+    if (ARCHON_UNLIKELY(size.is_empty()))
+        return; // SDL does not allow for empty textures
     SDL_Renderer* renderer = win.ensure_renderer(); // Throws
     Uint32 format = SDL_PIXELFORMAT_ARGB32;    
     int access = SDL_TEXTUREACCESS_STATIC;    
-- 
2.43.0


From d955e45970eb48b759448602fc295830c5d3da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 52/68] fix: do not ignore requests for empty window size in
 SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 5849504..e79335c 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -21,6 +21,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <algorithm>
 #include <memory>
 #include <utility>
 #include <chrono>
@@ -1059,7 +1060,8 @@ void WindowImpl::set_title(std::string_view title)
 
 void WindowImpl::set_size(display::Size size)
 {
-    SDL_SetWindowSize(m_win, size.width, size.height);
+    // SDL does not allow for the width or the height of a window to be zero
+    SDL_SetWindowSize(m_win, std::max(size.width, 1), std::max(size.height, 1));
 }
 
 
-- 
2.43.0


From c8f80ca92632f81d11533c2a67f33c973d9802c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 53/68] fix: allow for images to be put into empty textures in
 SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index e79335c..6dde742 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -1235,6 +1235,9 @@ inline auto TextureImpl::get() const noexcept -> SDL_Texture*
 
 void TextureImpl::put_image(const image::Image& img)
 {
+    if (ARCHON_UNLIKELY(size.is_empty()))
+        return; // There is no SDL texture when the size is zero
+
 /*
 Choose preferred pixel format for texture:
 If list contains ARGB8888, use that
-- 
2.43.0


From 6be33fefdace28938fdf489ea9d6503575251395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 54/68] fix: specify border of X11 window, so that depth can
 differ from that of root window

---
 src/archon/display/x11_implementation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 6f0ae52..bc9e644 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1464,8 +1464,11 @@ void WindowImpl::create(display::Size size, const Config& config, bool enable_do
     int depth = visual_spec.info.depth;
     unsigned class_ = InputOutput;
     Visual* visual = visual_spec.info.visual;
-    unsigned long valuemask = CWEventMask | CWColormap;
+    // The border must be specified explicitly when the depth of the window can differ from
+    // that of the parent window
+    unsigned long valuemask = CWBorderPixel | CWEventMask | CWColormap;
     XSetWindowAttributes attributes = {};
+    attributes.border_pixel = 0;
     attributes.event_mask = (KeyPressMask | KeyReleaseMask |
                              ButtonPressMask | ButtonReleaseMask |
                              ButtonMotionMask |
-- 
2.43.0


From 029958632b737e7e2875a6ca72cd4863472ae4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 55/68] fix: respect channel order when filling areas of X11
 windows

---
 src/archon/display/noinst/x11/support.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index f5cadf0..7e8be16 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -858,13 +858,17 @@ auto BitFieldPixelFormat<G, T, P, N, R>::intern_color(util::Color color) const n
     else {
         static_assert(packing_type::num_fields == 3);
 
-        constexpr int red_width   = image::get_bit_field_width(packing_type::fields, 3, 0);
-        constexpr int green_width = image::get_bit_field_width(packing_type::fields, 3, 1);
-        constexpr int blue_width  = image::get_bit_field_width(packing_type::fields, 3, 2);
+        constexpr int red_index   = (reverse_channel_order ? 2 : 0);
+        constexpr int green_index = 1;
+        constexpr int blue_index  = (reverse_channel_order ? 0 : 2);
 
-        constexpr int red_shift   = image::get_bit_field_shift(packing_type::fields, 3, 0);
-        constexpr int green_shift = image::get_bit_field_shift(packing_type::fields, 3, 1);
-        constexpr int blue_shift  = image::get_bit_field_shift(packing_type::fields, 3, 2);
+        constexpr int red_width   = image::get_bit_field_width(packing_type::fields, 3, red_index);
+        constexpr int green_width = image::get_bit_field_width(packing_type::fields, 3, green_index);
+        constexpr int blue_width  = image::get_bit_field_width(packing_type::fields, 3, blue_index);
+
+        constexpr int red_shift   = image::get_bit_field_shift(packing_type::fields, 3, red_index);
+        constexpr int green_shift = image::get_bit_field_shift(packing_type::fields, 3, green_index);
+        constexpr int blue_shift  = image::get_bit_field_shift(packing_type::fields, 3, blue_index);
 
         namespace uf = util::unit_frac;
         ulong r, g, b;
-- 
2.43.0


From 7dde39c84e16b8a6f9ff9414ccb7fd9112584478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 56/68] fix: respect base pixel of standard colormap when
 filling areas of X11 windows

---
 src/archon/display/noinst/x11/support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/noinst/x11/support.hpp b/src/archon/display/noinst/x11/support.hpp
index 703a559..333c22c 100644
--- a/src/archon/display/noinst/x11/support.hpp
+++ b/src/archon/display/noinst/x11/support.hpp
@@ -692,7 +692,7 @@ inline void MultFields::assign_to(XStandardColormap& params) const noexcept
 inline auto MultFields::pack(unsigned long red, unsigned long green,
                              unsigned long blue) const noexcept -> unsigned long
 {
-    return red * red_mult + green * green_mult + blue * blue_mult;
+    return offset + red * red_mult + green * green_mult + blue * blue_mult;
 }
 
 
-- 
2.43.0


From 27c95029d0d60859056eadc3625f7b03e8b4a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 57/68] fix: free allocated colors, not arbitrary ones, when
 X11 default colormap is full

---
 src/archon/display/noinst/x11/support.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 7e8be16..ad944a0 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -1376,7 +1376,7 @@ bool PixelFormatCreator::create_grayscale(std::unique_ptr<x11::PixelFormat>& for
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    ulong pixel = ulong(perm[std::size_t((i - 1) - j)]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
@@ -1528,7 +1528,7 @@ bool PixelFormatCreator::create_pseudocolor(std::unique_ptr<x11::PixelFormat>& f
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    ulong pixel = ulong(perm[std::size_t((i - 1) - j)]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
-- 
2.43.0


From c071bbab4f5241c37d9372a19599ad6fcde724b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 58/68] fix: initialize all entries of X11 colormaps of more
 than 256 entries

---
 src/archon/display/noinst/x11/support.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index ad944a0..9f512e0 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2822,9 +2822,9 @@ void x11::init_grayscale_colormap(Display* dpy, Colormap colormap, const x11::Mu
         for (int i = 0; i < n; ++i) {
             XColor& color = colors[i];
             color = {};
-            color.pixel = ulong(i);
-            color.flags = DoRed | DoGreen | DoBlue;
             int j = offset + i;
+            color.pixel = ulong(j);
+            color.flags = DoRed | DoGreen | DoBlue;
             if (ARCHON_LIKELY(j >= begin_1 && j < end_1)) {
                 int val = j - begin_1;
                 ulong val_2 = scale(val, fields.red_max);
@@ -2878,9 +2878,9 @@ void x11::init_pseudocolor_colormap(Display* dpy, Colormap colormap, const x11::
         for (int i = 0; i < n; ++i) {
             XColor& color = colors[i];
             color = {};
-            color.pixel = ulong(i);
-            color.flags = DoRed | DoGreen | DoBlue;
             int j = offset + i;
+            color.pixel = ulong(j);
+            color.flags = DoRed | DoGreen | DoBlue;
             if (ARCHON_LIKELY(j >= begin_1 && j < end_1)) {
                 int val = j - begin_1;
                 int comp[3] = {};
-- 
2.43.0


From 07c4e52a6f60ec3f6f677e8095cfe002e0f64d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 59/68] fix: do not leak palette components when construction
 of palette map fails

---
 src/archon/display/noinst/palette_map.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/noinst/palette_map.hpp b/src/archon/display/noinst/palette_map.hpp
index 310343c..acc624f 100644
--- a/src/archon/display/noinst/palette_map.hpp
+++ b/src/archon/display/noinst/palette_map.hpp
@@ -236,10 +236,14 @@ template<image::CompRepr R> inline void PaletteMap::init(const image::ColorSpace
         m_components = std::move(components);
     }
     else {
-        m_native_components = components.release();
+        m_native_components = components.get();
         convert(); // Throws
     }
     setup_kdtree(); // Throws
+
+    // Ownership of the native components is not assumed until nothing more can fail because
+    // the destructor is not executed when the constructor fails
+    components.release();
 }
 
 
-- 
2.43.0


From c0f3825c47a6714a8118aee5ac5ee248c6ecde6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 60/68] fix: reject glyphs of negative size in fallback font

---
 src/archon/font/loader_fallback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index 3c6fef9..c98f7ba 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -288,7 +288,7 @@ bool load_spec(core::FilesystemPathRef resource_dir, log::Logger& logger, const
             bool success = text_parser.parse(line, delim, fields, field_seq, min, max, error, value, label,
                                              pos); // Throws
             if (ARCHON_LIKELY(success)) {
-                if (ARCHON_UNLIKELY(!glyph.box.contained_in(spec.image_size))) {
+                if (ARCHON_UNLIKELY(!glyph.box.is_valid() || !glyph.box.contained_in(spec.image_size))) {
                     error_1("Glyph box (%s; %s) escapes image boundary (%s)", glyph.box.pos, glyph.box.size,
                             spec.image_size); // Throws
                     goto error;
-- 
2.43.0


From c971584812dd6f1a1a1ed0290e881e41e9c859f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 61/68] fix: let exceptions escape from construction of
 fallback font faces

---
 src/archon/font/loader_fallback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index c98f7ba..a26e1d4 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -403,7 +403,7 @@ auto get_logger(const std::locale& loc, font::Loader::Config config,
 class FaceImpl final
     : public font::Face {
 public:
-    FaceImpl(const Font& font) noexcept
+    FaceImpl(const Font& font)
         : m_font(font)
         , m_image_reader(*font.image) // Throws
     {
-- 
2.43.0


From 9e6f8fb469434ac070d5e6aea8119bb3bd4a66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 62/68] fix: do not report failure after selecting fixed size
 of FreeType font

---
 src/archon/font/loader_freetype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index b74e564..73cdb34 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -633,6 +633,7 @@ private:
         if (ARCHON_LIKELY(err == 0)) {
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[fixed_size_index];
             on_size_changed(entry.x_ppem, entry.y_ppem);
+            return;
         }
         throw std::runtime_error("FreeType: Failed to select fixed size");
     }
-- 
2.43.0


From fd3d474b1256c572bad6a511983c4d7ded4fbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 63/68] fix: allow for scaling of scalable rather than
 nonscalable FreeType fonts

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 73cdb34..856460e 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -256,7 +256,7 @@ public:
 
     void set_scaled_size(font::Size size) override
     {
-        if (ARCHON_LIKELY(!FT_IS_SCALABLE(m_face.face))) {
+        if (ARCHON_LIKELY(FT_IS_SCALABLE(m_face.face))) {
             FT_F26Dot6 width  = float_to_fixed_26p6(size.width);
             FT_F26Dot6 height = float_to_fixed_26p6(size.height);
             do_set_scaled_size(width, height); // Throws
-- 
2.43.0


From 4bef3c584111024ebcc0be490cf31e9185704478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 64/68] fix: select nearest fixed size of nonscalable FreeType
 font

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 856460e..6ccc7db 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -294,7 +294,7 @@ public:
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[i];
             float_type diff = (core::square(size.width  - fixed_26p6_to_float(entry.x_ppem)) +
                                core::square(size.height - fixed_26p6_to_float(entry.y_ppem)));
-            if (ARCHON_LIKELY(fixed_size_index < 0 && diff >= min))
+            if (ARCHON_LIKELY(fixed_size_index >= 0 && diff >= min))
                 continue;
             min = diff;
             fixed_size_index = i;
-- 
2.43.0


From 9a564b7f6f947723f2273d0dfd12e92df8507d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 65/68] fix: round negative font metrics to nearest integer

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 6ccc7db..cb3945e 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -81,7 +81,7 @@ inline auto fixed_26p6_round(FT_F26Dot6 val) noexcept -> FT_F26Dot6
     using type = decltype(val_2);
     if (val >= 0)
         return core::cast_from_twos_compl<FT_F26Dot6>((val_2 + 32) & ~type(63));
-    return core::cast_from_twos_compl<FT_F26Dot6>((val_2 - 32) & ~type(63));
+    return core::cast_from_twos_compl<FT_F26Dot6>(type(0) - ((type(32) - val_2) & ~type(63)));
 }
 
 
-- 
2.43.0


From c890fa43edf478fe6cf96da9d00b250a4e1b4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 66/68] fix: regenerate fallback font with numbers formatted
 the way they are parsed

---
 src/archon/font/loader_fallback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index a26e1d4..fed3324 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -792,7 +792,7 @@ void font::regen_fallback_font(font::Face& face, bool try_keep_orig_font_size,
         fs::path path = generate_file_path(resource_dir, g_spec_file_name, loc, "-new"); // Throws
         core::BufferedTextFile file(path, core::File::Mode::write); // Throws
         core::SeedMemoryOutputStream out; // Throws
-        out.imbue(loc); // Throws
+        out.imbue(std::locale(loc, std::locale::classic(), std::locale::numeric)); // Throws
         out.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
         auto format = [&](const char* message, const auto&... params) {
             core::format(out, message, params...); // Throws
-- 
2.43.0


From 764a9156503c1d10f84087117874eb755de2d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 67/68] fix: fall back on default ranges when old fallback font
 cannot be read

---
 src/archon/font/loader_fallback.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index fed3324..27fd69f 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -688,7 +688,14 @@ void font::regen_fallback_font(font::Face& face, bool try_keep_orig_font_size,
     if (ranges_2.empty() || try_keep_orig_font_size) {
         Spec spec = {};
         log::Logger& logger = log::Logger::get_null();
-        if (ARCHON_LIKELY(load_spec(resource_dir, logger, loc, spec))) { // Throws
+        bool have_old_spec = false;
+        try {
+            have_old_spec = load_spec(resource_dir, logger, loc, spec); // Throws
+        }
+        catch (const std::system_error&) {
+            // Old spec file is missing, or cannot be read
+        }
+        if (ARCHON_LIKELY(have_old_spec)) {
             fallback_ranges = std::move(spec.code_point_ranges);
             if (try_keep_orig_font_size)
                 face.set_approx_size(spec.render_size); // Throws
-- 
2.43.0


From 4e75b56591e5c59bb3ab023265bd90f36896d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 68/68] fix: do not let locale of user affect numbers in XML
 file of test results

---
 src/archon/check/command.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/check/command.cpp b/src/archon/check/command.cpp
index d49da3c..d999261 100644
--- a/src/archon/check/command.cpp
+++ b/src/archon/check/command.cpp
@@ -251,7 +251,8 @@ int check::command(std::string_view label, int argc, char* argv[],
         fs::path path = core::make_fs_path_native(xml_path, {}); // Throws
         xml_extras.emplace(path, reporter, suite_name); // Throws
         xml_extras->stream.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
-        xml_extras->stream.imbue(locale); // Throws
+        // The numbers in the XML file must not depend on the locale of the user
+        xml_extras->stream.imbue(std::locale(locale, std::locale::classic(), std::locale::numeric)); // Throws
         test_config.reporter = &xml_extras->duplicating_reporter;
     }
 
-- 
2.43.0

