From c0f614f990b0997fde97eb1c0609721160935310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 01/46] fix: self-assignment of a formatter used freed options

---
 src/formatting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..59a0339 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -391,6 +391,9 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
+        if(this == &other) {
+            return *this;
+        }
         if(pimpl) {
             delete pimpl;
         }
@@ -398,6 +401,9 @@ CPPTRACE_BEGIN_NAMESPACE
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
+        if(this == &other) {
+            return *this;
+        }
         if(pimpl) {
             delete pimpl;
         }
-- 
2.43.0


From ccbfe5c15e6244c4fec34390eec230baec8c326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 02/46] fix: an explicit color=false now overrides
 color_mode::always, as documented

---
 src/formatting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 59a0339..37318df 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,6 +207,10 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
+            if(color_override && color_override.unwrap() == false) {
+                // an explicit request for no color takes precedence over the configured color mode
+                return false;
+            }
             bool do_color = options.color == color_mode::always || color_override.value_or(false);
             if(
                 (options.color == color_mode::automatic || options.color == color_mode::always) &&
-- 
2.43.0


From e9f92d0d67bfbb8f88c48abea11c837a6323460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 03/46] fix: snippets for lines past the end of the file read
 out of bounds

---
 src/snippets/snippet.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..9cb0050 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -52,7 +52,7 @@ namespace detail {
 
         // takes a 1-index line
         std::string get_line(std::size_t line) const {
-            if(!loaded_contents || line > line_table.size()) {
+            if(!loaded_contents || line >= line_table.size()) {
                 return "";
             } else {
                 return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
@@ -115,9 +115,12 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        if(target_line >= manager.num_lines()) {
+            return nullopt; // past the end of the file
+        }
+        auto begin = target_line <= context_size || target_line - context_size <= 1 ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = target_line + std::min(context_size, manager.num_lines() - 1 - target_line);
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 72a2cdaeb7b28ca14facbce0904ead885e1f9cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 04/46] fix: skip and max_depth at the ends of their range gave
 wrong traces

A skip near SIZE_MAX wrapped around, max_depth 0 returned a frame (or tripped an assertion), and the execinfo back-end
underflowed for skips past the end of the stack and allocated skip pointers.
---
 src/cpptrace.cpp                     | 28 ++++++++++++++--------------
 src/ctrace.cpp                       |  6 +++---
 src/exceptions.cpp                   |  7 ++++---
 src/unwind/unwind.hpp                |  6 ++++++
 src/unwind/unwind_with_execinfo.cpp  | 17 ++++++++++++++---
 src/unwind/unwind_with_libunwind.cpp |  7 +++++--
 src/unwind/unwind_with_unwind.cpp    |  5 ++++-
 7 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/cpptrace.cpp b/src/cpptrace.cpp
index 85f7659..f4b8be9 100644
--- a/src/cpptrace.cpp
+++ b/src/cpptrace.cpp
@@ -29,7 +29,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     raw_trace raw_trace::current(std::size_t skip) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_raw_trace(skip + 1);
+            return generate_raw_trace(detail::skip_one_more(skip));
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return raw_trace{};
@@ -39,7 +39,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     raw_trace raw_trace::current(std::size_t skip, std::size_t max_depth) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_raw_trace(skip + 1, max_depth);
+            return generate_raw_trace(detail::skip_one_more(skip), max_depth);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return raw_trace{};
@@ -79,7 +79,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     object_trace object_trace::current(std::size_t skip) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_object_trace(skip + 1);
+            return generate_object_trace(detail::skip_one_more(skip));
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return object_trace{};
@@ -89,7 +89,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     object_trace object_trace::current(std::size_t skip, std::size_t max_depth) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_object_trace(skip + 1, max_depth);
+            return generate_object_trace(detail::skip_one_more(skip), max_depth);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return object_trace{};
@@ -136,7 +136,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     stacktrace stacktrace::current(std::size_t skip) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_trace(skip + 1);
+            return generate_trace(detail::skip_one_more(skip));
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return stacktrace{};
@@ -146,7 +146,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     stacktrace stacktrace::current(std::size_t skip, std::size_t max_depth) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_trace(skip + 1, max_depth);
+            return generate_trace(detail::skip_one_more(skip), max_depth);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return stacktrace{};
@@ -204,7 +204,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     raw_trace generate_raw_trace(std::size_t skip) {
         try {
-            return raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};
+            return raw_trace{detail::capture_frames(detail::skip_one_more(skip), SIZE_MAX)};
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return raw_trace{};
@@ -214,7 +214,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     raw_trace generate_raw_trace(std::size_t skip, std::size_t max_depth) {
         try {
-            return raw_trace{detail::capture_frames(skip + 1, max_depth)};
+            return raw_trace{detail::capture_frames(detail::skip_one_more(skip), max_depth)};
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return raw_trace{};
@@ -224,7 +224,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     std::size_t safe_generate_raw_trace(frame_ptr* buffer, std::size_t size, std::size_t skip) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return detail::safe_capture_frames(buffer, size, skip + 1, SIZE_MAX);
+            return detail::safe_capture_frames(buffer, size, detail::skip_one_more(skip), SIZE_MAX);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return 0;
@@ -239,7 +239,7 @@ CPPTRACE_BEGIN_NAMESPACE
          std::size_t max_depth
     ) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);
+            return detail::safe_capture_frames(buffer, size, detail::skip_one_more(skip), max_depth);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return 0;
@@ -249,7 +249,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     object_trace generate_object_trace(std::size_t skip) {
         try {
-            return object_trace{detail::get_frames_object_info(detail::capture_frames(skip + 1, SIZE_MAX))};
+            return object_trace{detail::get_frames_object_info(detail::capture_frames(detail::skip_one_more(skip), SIZE_MAX))};
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return object_trace{};
@@ -259,7 +259,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     object_trace generate_object_trace(std::size_t skip, std::size_t max_depth) {
         try {
-            return object_trace{detail::get_frames_object_info(detail::capture_frames(skip + 1, max_depth))};
+            return object_trace{detail::get_frames_object_info(detail::capture_frames(detail::skip_one_more(skip), max_depth))};
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return object_trace{};
@@ -269,7 +269,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     stacktrace generate_trace(std::size_t skip) {
         try { // try/catch can never be hit but it's needed to prevent TCO
-            return generate_trace(skip + 1, SIZE_MAX);
+            return generate_trace(detail::skip_one_more(skip), SIZE_MAX);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return stacktrace{};
@@ -279,7 +279,7 @@ CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     stacktrace generate_trace(std::size_t skip, std::size_t max_depth) {
         try {
-            std::vector<frame_ptr> frames = detail::capture_frames(skip + 1, max_depth);
+            std::vector<frame_ptr> frames = detail::capture_frames(detail::skip_one_more(skip), max_depth);
             std::vector<stacktrace_frame> trace = detail::resolve_frames(frames);
             for(auto& frame : trace) {
                 frame.symbol = detail::demangle(frame.symbol, true);
diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..5a20aa2 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -164,7 +164,7 @@ extern "C" {
     CTRACE_FORCE_NO_INLINE
     ctrace_raw_trace ctrace_generate_raw_trace(size_t skip, size_t max_depth) {
         try {
-            std::vector<cpptrace::frame_ptr> trace = cpptrace::detail::capture_frames(skip + 1, max_depth);
+            std::vector<cpptrace::frame_ptr> trace = cpptrace::detail::capture_frames(cpptrace::detail::skip_one_more(skip), max_depth);
             std::size_t count = trace.size();
             auto* frames = new ctrace_frame_ptr[count];
             std::copy(trace.data(), trace.data() + count, frames);
@@ -179,7 +179,7 @@ extern "C" {
     ctrace_object_trace ctrace_generate_object_trace(size_t skip, size_t max_depth) {
         try {
             std::vector<cpptrace::object_frame> trace = cpptrace::detail::get_frames_object_info(
-                cpptrace::detail::capture_frames(skip + 1, max_depth)
+                cpptrace::detail::capture_frames(cpptrace::detail::skip_one_more(skip), max_depth)
             );
             return ctrace::c_convert(trace);
         } catch(...) { // NOSONAR
@@ -191,7 +191,7 @@ extern "C" {
     CTRACE_FORCE_NO_INLINE
     ctrace_stacktrace ctrace_generate_trace(size_t skip, size_t max_depth) {
         try {
-            std::vector<cpptrace::frame_ptr> frames = cpptrace::detail::capture_frames(skip + 1, max_depth);
+            std::vector<cpptrace::frame_ptr> frames = cpptrace::detail::capture_frames(cpptrace::detail::skip_one_more(skip), max_depth);
             std::vector<cpptrace::stacktrace_frame> trace = cpptrace::detail::resolve_frames(frames);
             return ctrace::c_convert(trace);
         } catch(...) { // NOSONAR
diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..f8932c0 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -14,6 +14,7 @@
 #include "options.hpp"
 #include "logging.hpp"
 #include "utils/error.hpp"
+#include "unwind/unwind.hpp"
 
 CPPTRACE_BEGIN_NAMESPACE
     namespace detail {
@@ -104,7 +105,7 @@ CPPTRACE_BEGIN_NAMESPACE
         CPPTRACE_FORCE_NO_INLINE
         raw_trace get_raw_trace_and_absorb(std::size_t skip, std::size_t max_depth) {
             try {
-                return generate_raw_trace(skip + 1, max_depth);
+                return generate_raw_trace(detail::skip_one_more(skip), max_depth);
             } catch(const std::exception& e) {
                 if(!should_absorb_trace_exceptions()) {
                     log::error(
@@ -119,7 +120,7 @@ CPPTRACE_BEGIN_NAMESPACE
         CPPTRACE_FORCE_NO_INLINE
         raw_trace get_raw_trace_and_absorb(std::size_t skip) {
             try { // try/catch can never be hit but it's needed to prevent TCO
-                return get_raw_trace_and_absorb(skip + 1, SIZE_MAX);
+                return get_raw_trace_and_absorb(detail::skip_one_more(skip), SIZE_MAX);
             } catch(...) {
                 detail::log_and_maybe_propagate_exception(std::current_exception());
                 return raw_trace{};
@@ -181,7 +182,7 @@ CPPTRACE_BEGIN_NAMESPACE
         } catch(cpptrace::exception&) {
             throw; // already a cpptrace::exception
         } catch(...) {
-            throw nested_exception(std::current_exception(), detail::get_raw_trace_and_absorb(skip + 1));
+            throw nested_exception(std::current_exception(), detail::get_raw_trace_and_absorb(detail::skip_one_more(skip)));
         }
     }
 CPPTRACE_END_NAMESPACE
diff --git a/src/unwind/unwind.hpp b/src/unwind/unwind.hpp
index 58e2d4f..ec7a4ac 100644
--- a/src/unwind/unwind.hpp
+++ b/src/unwind/unwind.hpp
@@ -4,6 +4,7 @@
 #include <cpptrace/basic.hpp>
 
 #include <cstddef>
+#include <cstdint>
 #include <vector>
 
 #ifdef CPPTRACE_UNWIND_WITH_DBGHELP
@@ -36,6 +37,11 @@ namespace detail {
     std::size_t safe_capture_frames(frame_ptr* buffer, std::size_t size, std::size_t skip, std::size_t max_depth);
 
     bool has_safe_unwind();
+
+    // for skipping the library's own frames, without wrapping around for a very large skip
+    constexpr std::size_t skip_one_more(std::size_t skip) noexcept {
+        return skip == SIZE_MAX ? SIZE_MAX : skip + 1;
+    }
 }
 CPPTRACE_END_NAMESPACE
 
diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..dc48cf9 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -15,10 +15,21 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
-        skip++;
-        std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
+        skip = skip_one_more(skip);
+        // backtrace can't skip frames itself, so the skipped frames need room in the buffer too. The buffer grows as needed
+        // since skip can be arbitrarily larger than the stack.
+        std::size_t max_addrs = std::min(hard_max_frames, max_depth);
+        max_addrs += std::min(skip, static_cast<std::size_t>(INT_MAX) - max_addrs);
+        std::vector<void*> addrs(std::min<std::size_t>(max_addrs, 1024), nullptr);
         // thread safe
-        const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        while(static_cast<std::size_t>(n_frames) == addrs.size() && addrs.size() < max_addrs) {
+            addrs.resize(addrs.size() + std::min(addrs.size(), max_addrs - addrs.size()));
+            n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        }
+        if(skip >= static_cast<std::size_t>(n_frames)) {
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
         for(int i = skip; i < n_frames; i++) {
diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..bba8f73 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -16,8 +16,11 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
-        skip++;
+        skip = skip_one_more(skip);
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unw_context_t context;
         unw_cursor_t cursor;
         unw_getcontext(&context);
@@ -40,7 +43,7 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::size_t safe_capture_frames(frame_ptr* buffer, std::size_t size, std::size_t skip, std::size_t max_depth) {
         // some code duplication, but whatever
-        skip++;
+        skip = skip_one_more(skip);
         unw_context_t context;
         unw_cursor_t cursor;
         // thread and signal-safe https://www.nongnu.org/libunwind/man/unw_getcontext(3).html
diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..7c16555 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,7 +55,10 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
-        unwind_state state{skip + 1, max_depth, frames};
+        if(max_depth == 0) {
+            return frames;
+        }
+        unwind_state state{skip_one_more(skip), max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
     }
-- 
2.43.0


From 1fe107283c67f2f39e41167161b7a77d8ba09a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 05/46] fix: libunwind traces misplaced the frame interrupted
 by a signal

---
 src/unwind/unwind_with_libunwind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index bba8f73..32ae0cd 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -32,6 +32,9 @@ namespace detail {
             unw_get_reg(&cursor, UNW_REG_SP, &sp);
             if(skip) {
                 skip--;
+            } else if(unw_is_signal_frame(&cursor) > 0) {
+                // pc is the instruction that caused the signal
+                frames.push_back(to_frame_ptr(pc));
             } else {
                 // pc is the instruction after the `call`, adjust back to the previous instruction
                 frames.push_back(to_frame_ptr(pc) - 1);
-- 
2.43.0


From 1f52a0339461db83da47ac64c53231bc98264a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 06/46] fix: ctrace_safe_generate_raw_trace did not skip its
 own frame

---
 src/ctrace.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 5a20aa2..a720821 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -296,8 +296,18 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::detail::safe_capture_frames(
+                buffer,
+                size,
+                cpptrace::detail::skip_one_more(skip),
+                max_depth
+            );
+        } catch(...) {
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
-- 
2.43.0


From 65c7f92d6e0b2aa8fc863ea213c792f7dc5c9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 07/46] fix: prune_symbol read past the end of symbols with
 escapes in literals

---
 src/prune_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index fc54cf0..0a51a3b 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -246,7 +246,7 @@ namespace detail {
                         if(cursor + 1 == source.end()) {
                             return parse_error{};
                         }
-                        cursor += 2;
+                        cursor++;
                     }
                     cursor++;
                 }
-- 
2.43.0


From d427c4be3ee8ff1e5d33f95512bb10579e371428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 08/46] fix: prune_symbol gave up on identifiers with non-ascii
 characters

---
 src/prune_symbol.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 0a51a3b..0a5d8ce 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -44,10 +44,12 @@ namespace detail {
 
     // http://eel.is/c++draft/lex.name#nt:identifier
     bool is_identifier_start(char c) {
-        return isalpha(c) || c == '$' || c == '_';
+        // bytes outside ascii are part of a utf-8 encoded identifier
+        const auto byte = static_cast<unsigned char>(c);
+        return isalpha(byte) || byte >= 0x80 || c == '$' || c == '_';
     }
     bool is_identifier_continue(char c) {
-        return isdigit(c) || is_identifier_start(c);
+        return isdigit(static_cast<unsigned char>(c)) || is_identifier_start(c);
     }
     bool is_hex_digit(char c) {
         return isdigit(c) || is_any(c, 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F');
@@ -310,7 +312,7 @@ namespace detail {
             if(next_token.has_value()) {
                 return monostate{};
             }
-            while(!source.empty() && std::isspace(source[0])) {
+            while(!source.empty() && std::isspace(static_cast<unsigned char>(source[0]))) {
                 source.advance(1);
             }
             if(source.empty()) {
-- 
2.43.0


From 194452abb6df3ac04e386e64359e26417c702003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 09/46] fix: prune_symbol overflowed the stack on deeply nested
 input

---
 src/prune_symbol.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 0a5d8ce..24b541b 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -393,7 +393,10 @@ namespace detail {
         }
     };
 
-    std::string prune_symbol(string_view symbol);
+    // Limit on the nesting of symbols within symbols, so that hostile input can't overflow the stack
+    constexpr int max_symbol_nesting = 100;
+
+    std::string prune_symbol(string_view symbol, int depth);
 
     /*
 
@@ -471,6 +474,7 @@ namespace detail {
         std::string name_output;
         bool last_was_identifier = false;
         bool reset_output_flag = false;
+        int depth;
 
         void append_output(token token) {
             auto is_identifier = token.type == token_type::identifier;
@@ -780,7 +784,10 @@ namespace detail {
                 append_output({token_type::punctuation, "`"});
                 auto symbol = maybe_literal_token.unwrap().str;
                 ASSERT(symbol.size() >= 2);
-                auto name = detail::prune_symbol(symbol.substr(1, symbol.size() - 2));
+                if(depth >= max_symbol_nesting) {
+                    return parse_error{};
+                }
+                auto name = detail::prune_symbol(symbol.substr(1, symbol.size() - 2), depth + 1);
                 append_output({token_type::literal, name});
                 append_output({token_type::punctuation, "'"});
                 return true;
@@ -901,6 +908,11 @@ namespace detail {
         }
 
         NODISCARD Result<bool, parse_error> parse_symbol() {
+            if(depth >= max_symbol_nesting) {
+                return parse_error{};
+            }
+            depth++;
+            auto guard = scope_exit([this] { depth--; });
             bool made_progress = false;
             while(true) {
                 TRY_TOK(token, tokenizer.peek());
@@ -936,7 +948,7 @@ namespace detail {
         }
 
     public:
-        symbol_parser(symbol_tokenizer& tokenizer) : tokenizer(tokenizer) {}
+        symbol_parser(symbol_tokenizer& tokenizer, int depth) : tokenizer(tokenizer), depth(depth) {}
 
         NODISCARD Result<monostate, parse_error> parse() {
             while(true) {
@@ -959,9 +971,9 @@ namespace detail {
         }
     };
 
-    NODISCARD std::string prune_symbol(string_view symbol) {
+    NODISCARD std::string prune_symbol(string_view symbol, int depth) {
         detail::symbol_tokenizer tokenizer(symbol);
-        detail::symbol_parser parser(tokenizer);
+        detail::symbol_parser parser(tokenizer, depth);
         auto res = parser.parse();
         if(res.is_error()) {
             // error
@@ -979,7 +991,7 @@ CPPTRACE_END_NAMESPACE
 CPPTRACE_BEGIN_NAMESPACE
     std::string prune_symbol(const std::string& symbol) {
         try {
-            return detail::prune_symbol(symbol);
+            return detail::prune_symbol(symbol, 0);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return symbol;
-- 
2.43.0


From 0e65b6aa3f2abf17ae349a37c52e5a2e1643f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 10/46] fix: prune_symbol mixed up return types, conversion
 targets and function names

- operator unsigned long long was pruned to long
- the name of functions returning function pointers or references to arrays was lost when the pointed-to
  type has template arguments
---
 src/prune_symbol.cpp | 54 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 24b541b..50c6265 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -443,7 +443,7 @@ namespace detail {
     matching-punctuation := "(" ")"
                           | "[" "]"
 
-    conversion-operator := symbol [ symbol ] // kind of a hack
+    conversion-operator := symbol { symbol } // kind of a hack
 
     name := [ "~" ] IDENTIFIER
 
@@ -655,10 +655,18 @@ namespace detail {
                     // There is a bit of a grammer hack here, it doesn't properly "nest," but it works
                     TRY_PARSE(parse_symbol(), (void)0);
                     // In the case of a member function pointer, there will be a type symbol followed by a symbol for
-                    // the type that the member pointer points to
-                    TRY_TOK(maybe_ident, tokenizer.peek());
-                    if(maybe_ident && maybe_ident.unwrap().type == token_type::identifier) {
-                        TRY_PARSE(parse_symbol(), (void)0);
+                    // the type that the member pointer points to. There can be more than one for types whose name is
+                    // several words, e.g. unsigned long long.
+                    while(true) {
+                        TRY_TOK(maybe_ident, tokenizer.peek());
+                        if(!maybe_ident || maybe_ident.unwrap().type != token_type::identifier) {
+                            break;
+                        }
+                        bool did_parse = false;
+                        TRY_PARSE(parse_symbol(), did_parse = true);
+                        if(!did_parse) {
+                            break;
+                        }
                     }
                     return true;
                 }
@@ -843,6 +851,34 @@ namespace detail {
             return res.unwrap_value();
         }
 
+        // lookahead to match "(*foo" but not "(*)", which is just a function pointer type
+        NODISCARD bool lookahead_is_named_function_pointer() const {
+            if(!lookahead_is_function_pointer()) {
+                return false;
+            }
+            auto res = [] (symbol_tokenizer tokenizer_copy) -> Result<bool, parse_error> {
+                while(true) {
+                    TRY_TOK(token, tokenizer_copy.advance());
+                    if(!token) {
+                        return false;
+                    }
+                    if(token.unwrap().type == token_type::identifier) {
+                        if(
+                            !is_microsoft_calling_convention(token.unwrap().str)
+                            && !is_ignored_identifier(token.unwrap().str)
+                        ) {
+                            return true;
+                        }
+                    } else if(token.unwrap().str == ")") {
+                        return false;
+                    } else if(token.unwrap().str != "(" && !is_pointer_ref(token.unwrap())) {
+                        return true;
+                    }
+                }
+            } (tokenizer);
+            return !res.is_error() && res.unwrap_value();
+        }
+
         NODISCARD Result<bool, parse_error> parse_function_pointer() {
             ASSERT(lookahead_is_function_pointer());
             TRY_TOK(opening_parenthesis, tokenizer.accept({token_type::punctuation, "("}));
@@ -899,6 +935,9 @@ namespace detail {
                 if(!token) {
                     break;
                 }
+                if(lookahead_is_named_function_pointer()) {
+                    break;
+                }
                 TRY_PARSE(accept_balanced_punctuation(), {did_consume = true; continue;});
                 TRY_PARSE(accept_ignored_identifier(), {did_consume = true; continue;});
                 TRY_PARSE(accept_pointer_ref(false), {did_consume = true; continue;});
@@ -931,6 +970,11 @@ namespace detail {
                 }
                 TRY_PARSE(accept_pointer_ref(true), made_progress = true);
                 TRY_PARSE(consume_punctuation_and_trailing_modifiers(), made_progress = true);
+                // the function's name may also follow after template arguments, e.g. S<int> (*foo<int>())(int)
+                while(lookahead_is_named_function_pointer()) {
+                    TRY_PARSE(parse_function_pointer(), made_progress = true);
+                    TRY_PARSE(consume_punctuation_and_trailing_modifiers(), made_progress = true);
+                }
                 TRY_TOK(scope_resolution, tokenizer.accept({token_type::punctuation, "::"}));
                 if(scope_resolution) {
                     append_output(scope_resolution.unwrap());
-- 
2.43.0


From 4911f67a208b087a40bee8b34cd576f5d8663372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 11/46] fix: prune_symbol kept pointer to member return types
 in the name

---
 src/prune_symbol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 50c6265..bc623de 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -983,6 +983,10 @@ namespace detail {
                     TRY_TOK(star, tokenizer.accept({token_type::punctuation, "*"}));
                     if(star) {
                         append_output(star.unwrap());
+                        TRY_PARSE(accept_pointer_ref(true), (void)0);
+                        TRY_PARSE(consume_punctuation_and_trailing_modifiers(), (void)0);
+                        // The pointed-to class ends here, any name that follows belongs to a new symbol
+                        break;
                     }
                 } else {
                     break;
-- 
2.43.0


From e3e47e3827944ebe5fff4c9e2d859454fd36e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 12/46] fix: prettify_symbol turned other character types' and
 other namespaces' strings into std::string

---
 src/formatting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 37318df..10d9c68 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -37,11 +37,11 @@ CPPTRACE_BEGIN_NAMESPACE
         // rules to replace std::basic_string -> std::string and std::basic_string_view -> std::string
         // rule to replace ", std::allocator<whatever>"
         static const std::pair<std::regex, std::string> basic_string = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char)"), "std::string"
+            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string<char\b)"), "std::string"
         };
         detail::replace_all_template(symbol, basic_string);
         static const std::pair<std::regex, std::string> basic_string_view = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char)"), "std::string_view"
+            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string_view<char\b)"), "std::string_view"
         };
         detail::replace_all_template(symbol, basic_string_view);
         static const std::pair<std::regex, std::string> allocator = {
-- 
2.43.0


From ed7861bbc39174ab347b43edbbb7917cc7c23055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 13/46] fix: prettify_symbol dropped function parameters of
 allocator and deleter types

---
 src/formatting.cpp        |  4 ++--
 src/utils/replace_all.cpp | 14 +++++++++++++-
 src/utils/replace_all.hpp |  9 +++++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 10d9c68..b00d726 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -47,11 +47,11 @@ CPPTRACE_BEGIN_NAMESPACE
         static const std::pair<std::regex, std::string> allocator = {
             std::regex(R"(,\s*std(::[a-zA-Z0-9_]+)?::allocator<)"), ""
         };
-        detail::replace_all_template(symbol, allocator);
+        detail::replace_all_template(symbol, allocator, true);
         static const std::pair<std::regex, std::string> default_delete = {
             std::regex(R"(,\s*std(::[a-zA-Z0-9_]+)?::default_delete<)"), ""
         };
-        detail::replace_all_template(symbol, default_delete);
+        detail::replace_all_template(symbol, default_delete, true);
         // replace std::__cxx11 -> std:: for gcc dual abi
         // https://gcc.gnu.org/onlinedocs/libstdc++/manual/using_dual_abi.html
         detail::replace_all_dynamic(symbol, "std::__cxx11::", "std::");
diff --git a/src/utils/replace_all.cpp b/src/utils/replace_all.cpp
index ebf6e02..a21b720 100644
--- a/src/utils/replace_all.cpp
+++ b/src/utils/replace_all.cpp
@@ -29,7 +29,11 @@ namespace detail {
         }
     }
 
-    void replace_all_template(std::string& str, const std::pair<std::regex, string_view>& rule) {
+    void replace_all_template(
+        std::string& str,
+        const std::pair<std::regex, string_view>& rule,
+        bool whole_argument
+    ) {
         const auto& re = rule.first;
         const auto& replacement = rule.second;
         std::smatch match;
@@ -45,6 +49,14 @@ namespace detail {
                     c--;
                 }
             }
+            if(whole_argument) {
+                // leave types that merely start with the match alone, such as function parameters
+                const auto next = str.find_first_not_of(' ', end);
+                if(next == std::string::npos || (str[next] != '>' && str[next] != ',')) {
+                    cursor = match_begin + match.length();
+                    continue;
+                }
+            }
             // make the replacement
             str.replace(match_begin, end - match_begin, replacement.data(), replacement.size());
             cursor = match_begin + replacement.size();
diff --git a/src/utils/replace_all.hpp b/src/utils/replace_all.hpp
index a4cd8c0..a6c365f 100644
--- a/src/utils/replace_all.hpp
+++ b/src/utils/replace_all.hpp
@@ -17,8 +17,13 @@ namespace detail {
     // replace all instances of substr with the replacement, including new instances introduced by the replacement
     void replace_all_dynamic(std::string& str, string_view substr, string_view replacement);
 
-    // replace all matches of a regex including template parameters
-    void replace_all_template(std::string& str, const std::pair<std::regex, string_view>& rule);
+    // replace all matches of a regex including template parameters, optionally only those which are an entire argument in
+    // an argument list
+    void replace_all_template(
+        std::string& str,
+        const std::pair<std::regex, string_view>& rule,
+        bool whole_argument = false
+    );
 }
 CPPTRACE_END_NAMESPACE
 
-- 
2.43.0


From 10ca8286f4702ab3dbedce0aed6e0ec0de39e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 14/46] fix: elf files of the other byte order were rejected as
 corrupted

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..41ab632 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -246,7 +246,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From 0de0f8d79988855da96849ca422172f1fc3b249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 15/46] fix: elf symbol lookup attributed the address after a
 symbol's end to the symbol

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 41ab632..0ec4f99 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -143,7 +143,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc - it->st_value < it->st_size) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
-- 
2.43.0


From 0e11faeae04290e6b4b656086702eb8c1a6569ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 16/46] fix: corrupted elf objects caused out of bounds reads
 and unbounded allocations

---
 src/binary/elf.cpp                | 33 ++++++++++++++++++++++++++++++-
 src/binary/elf.hpp                |  2 ++
 src/utils/io/memory_file_view.cpp |  2 +-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 0ec4f99..02859f0 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 #include <mutex>
 #include <type_traits>
 #include <unordered_map>
@@ -144,6 +145,9 @@ namespace detail {
             return nullopt;
         }
         if(pc - it->st_value < it->st_size) {
+            if(it->st_name >= strtab.size()) {
+                return nullopt;
+            }
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -167,6 +171,9 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
+            if(section.sh_name >= strtab.size()) {
+                continue;
+            }
             if(string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
@@ -204,7 +211,9 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size()
+                    ? strtab.unwrap().data() + entry.st_name
+                    : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
@@ -305,6 +314,22 @@ namespace detail {
         return sections;
     }
 
+    // Checks that a section's contents are really there, to be able to trust sh_size before allocating anything
+    optional<internal_error> elf::check_section_bounds(const section_info& section) {
+        if(section.sh_size == 0) {
+            return nullopt;
+        }
+        const auto end = section.sh_offset + section.sh_size;
+        if(
+            end < section.sh_offset
+            || end > static_cast<std::uint64_t>(std::numeric_limits<off_t>::max())
+            || !file->read<char>(static_cast<off_t>(end - 1))
+        ) {
+            return internal_error("elf section extends past the end of the file {}", file->path());
+        }
+        return nullopt;
+    }
+
     Result<const std::vector<char>&, internal_error> elf::get_strtab(std::size_t index) {
         auto res = strtab_entries.insert({index, {}});
         auto it = res.first;
@@ -331,6 +356,9 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        if(auto bounds_error = check_section_bounds(section)) {
+            return std::move(bounds_error).unwrap();
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -423,6 +451,9 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                if(auto bounds_error = check_section_bounds(section)) {
+                    return std::move(bounds_error).unwrap();
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
                 if(!res) {
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index 02c68df..52599be 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -127,6 +127,8 @@ namespace detail {
         template<std::size_t Bits>
         Result<const std::vector<section_info>&, internal_error> get_sections_impl();
 
+        optional<internal_error> check_section_bounds(const section_info& section);
+
         Result<const std::vector<char>&, internal_error> get_strtab(std::size_t index);
 
         Result<const optional<symtab_info>&, internal_error> get_symtab();
diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..88181ae 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,7 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        if(to<std::size_t>(offset) > data.size() || buffer.size() > data.size() - to<std::size_t>(offset)) {
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From 3cb2a4f564fa8dd1bb1672c1cabb296da0b21e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 17/46] fix: jit objects without code hid the code of
 neighboring jit objects

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..6b20bab 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -55,6 +55,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             for(auto range : ranges) {
+                if(range.low >= range.high) {
+                    continue; // an empty range would only hide the range it's in front of
+                }
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From 1e482ee11ed3d617ac04293c7a8959209ac4f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 18/46] fix: module base of objects with load segments at a
 non-zero address but no PT_PHDR

---
 src/binary/elf.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 02859f0..933a53b 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -88,6 +88,8 @@ namespace detail {
             return std::move(header).unwrap_error();
         }
         const auto& header_info = header.unwrap_value();
+        bool saw_load = false;
+        std::uintptr_t base = 0;
         // PT_PHDR will occur at most once
         // Should be somewhat reliable https://stackoverflow.com/q/61568612/15675011
         // It should occur at the beginning but may as well loop just in case
@@ -101,9 +103,13 @@ namespace detail {
                 return byteswap_if_needed(program_header.p_vaddr) -
                     byteswap_if_needed(program_header.p_offset);
             }
+            if(byteswap_if_needed(program_header.p_type) == PT_LOAD && !saw_load) {
+                saw_load = true;
+                base = byteswap_if_needed(program_header.p_vaddr) - byteswap_if_needed(program_header.p_offset);
+            }
         }
-        // Apparently some objects like shared objects can end up missing this header. 0 as a base seems correct.
-        return 0;
+        // Apparently some objects like shared objects can end up missing this header. The lowest load segment has the base.
+        return base;
     }
 
     optional<std::string> elf::lookup_symbol(frame_ptr pc) {
-- 
2.43.0


From db0c46f4270cb6b803cac1055cb96c686803c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 19/46] fix: empty elf sections dereferenced a null pointer and
 failed to read from disk

---
 src/utils/io/file.cpp             | 3 +++
 src/utils/io/memory_file_view.cpp | 3 +++
 src/utils/span.hpp                | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/io/file.cpp b/src/utils/io/file.cpp
index c440ad0..e0415d4 100644
--- a/src/utils/io/file.cpp
+++ b/src/utils/io/file.cpp
@@ -16,6 +16,9 @@ namespace detail {
     }
 
     Result<monostate, internal_error> file::read_bytes(bspan buffer, off_t offset) const {
+        if(buffer.empty()) {
+            return monostate{};
+        }
         if(std::fseek(file_obj, offset, SEEK_SET) != 0) {
             return internal_error("fseek error in {} at offset {}", path(), offset);
         }
diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 88181ae..bbbbcae 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -16,6 +16,9 @@ namespace detail {
                 path(), offset, buffer.size(), data.size()
             );
         }
+        if(buffer.empty()) {
+            return monostate{};
+        }
         std::memcpy(buffer.data(), data.data() + offset, buffer.size());
         return monostate{};
     }
diff --git a/src/utils/span.hpp b/src/utils/span.hpp
index b913860..3b356de 100644
--- a/src/utils/span.hpp
+++ b/src/utils/span.hpp
@@ -37,7 +37,7 @@ namespace detail {
         span() : ptr(nullptr), count(0) {}
         span(T* ptr, std::size_t count) : ptr(ptr), count(count) {}
         template<typename It>
-        span(It begin, It end) : ptr(std::addressof(*begin)), count(end - begin) {}
+        span(It begin, It end) : ptr(begin == end ? nullptr : std::addressof(*begin)), count(end - begin) {}
 
         T* data() const noexcept {
             return ptr;
-- 
2.43.0


From 829a4c0af28da46179bc52a6990211fa4ba2378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 20/46] fix: resolved jit frames lost their raw and object
 addresses

---
 src/symbols/symbols_with_libdwarf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 5f83345..19dc334 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -91,6 +91,8 @@ namespace libdwarf {
         auto object_res = lookup_jit_object(dlframe.raw_address);
         // TODO: At some point, dwarf resolution
         if(object_res) {
+            frame.frame.raw_address = dlframe.raw_address;
+            frame.frame.object_address = dlframe.object_address;
             frame.frame.symbol = object_res.unwrap().object
                 .lookup_symbol(dlframe.raw_address - object_res.unwrap().base).value_or("");
         }
-- 
2.43.0


From 66870f7ff939e32236f6693df78e7102890fe52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 21/46] fix: resolving large traces with addr2line deadlocked

---
 src/symbols/symbols_with_addr2line.cpp | 48 ++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..4723476 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <functional>
@@ -16,6 +17,8 @@
 #include <vector>
 
 #if IS_LINUX || IS_APPLE
+ #include <fcntl.h>
+ #include <poll.h>
  #include <unistd.h>
  #include <sys/types.h>
  #include <sys/wait.h>
@@ -125,18 +128,49 @@ namespace addr2line {
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
-            throw internal_error("call to write failed: {}", errno);
-        }
         close(input_pipe.end.read);
-        close(input_pipe.end.write);
         close(output_pipe.end.write);
+        // addr2line's output has to be consumed while it's being given its input, it stops reading when nobody takes its
+        // output and neither pipe is large enough to hold everything for a large trace
+        fcntl(input_pipe.end.write, F_SETFL, fcntl(input_pipe.end.write, F_GETFL) | O_NONBLOCK);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
-            output.insert(output.end(), buffer, buffer + count);
+        std::size_t written = 0;
+        bool writing = true;
+        while(true) {
+            if(writing && written == addresses.size()) {
+                close(input_pipe.end.write);
+                writing = false;
+            }
+            pollfd fds[2] = {
+                {output_pipe.end.read, POLLIN, 0},
+                {writing ? input_pipe.end.write : -1, POLLOUT, 0}
+            };
+            if(poll(fds, 2, -1) == -1) {
+                throw internal_error("call to poll failed: {}", errno);
+            }
+            if(fds[1].revents) {
+                const auto count = write(
+                    input_pipe.end.write,
+                    addresses.data() + written,
+                    addresses.size() - written
+                );
+                if(count == -1 && errno != EAGAIN) {
+                    throw internal_error("call to write failed: {}", errno);
+                }
+                written += count == -1 ? 0 : count;
+            }
+            if(fds[0].revents) {
+                const auto count = read(output_pipe.end.read, buffer, buffer_size);
+                if(count <= 0) {
+                    break;
+                }
+                output.insert(output.end(), buffer, buffer + count);
+            }
+        }
+        if(writing) {
+            close(input_pipe.end.write);
         }
         // TODO: check status from addr2line?
         waitpid(pid, nullptr, 0);
-- 
2.43.0


From f04b4e7e2bdae3595d393a383a145c3e8cd57787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:43 +0000
Subject: [PATCH 22/46] fix: interceptors in libraries loaded later left pages
 with stale protections

---
 src/platform/memory_mapping.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/platform/memory_mapping.cpp b/src/platform/memory_mapping.cpp
index e0b092a..62c6edc 100644
--- a/src/platform/memory_mapping.cpp
+++ b/src/platform/memory_mapping.cpp
@@ -208,20 +208,17 @@ namespace detail {
         throw internal_error("Couldn't successfully load /proc/self/maps after {} retries", n);
     }
 
-    const std::vector<address_range>& load_mapped_region_info() {
-        static std::vector<address_range> regions;
-        static bool has_loaded = false;
-        if(!has_loaded) {
-            has_loaded = true;
-            if(auto info = try_load_mapped_region_info_with_retries(2)) {
-                regions = std::move(info).unwrap();
-            }
+    // this can't be cached, mappings and their protections change when shared objects are loaded
+    std::vector<address_range> load_mapped_region_info() {
+        std::vector<address_range> regions;
+        if(auto info = try_load_mapped_region_info_with_retries(2)) {
+            regions = std::move(info).unwrap();
         }
         return regions;
     }
 
     int get_page_protections(void* page) {
-        const auto& mapped_region_info = load_mapped_region_info();
+        const auto mapped_region_info = load_mapped_region_info();
         auto it = first_less_than_or_equal(
             mapped_region_info.begin(),
             mapped_region_info.end(),
-- 
2.43.0


From f92149a3cc1d490be3f844629e48d35f3fd63289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 23/46] fix: self-assignment of traced exceptions destroyed
 their trace

---
 src/exceptions.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index f8932c0..55ad8b6 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -33,16 +33,13 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
-            }
-            return *this;
+            // copy first: self-assignment and exceptions while copying must not touch the current trace
+            return *this = lazy_trace_holder(other);
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
-- 
2.43.0


From 318e0f004c39e02cd1d1500d8501dcb4b189365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 24/46] fix: message of a nested_exception holding nothing
 crashed

---
 src/exceptions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 55ad8b6..2ffdf97 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -157,6 +157,9 @@ CPPTRACE_BEGIN_NAMESPACE
 
     const char* nested_exception::message() const noexcept {
         if(message_value.empty()) {
+            if(!ptr) { // nothing wrapped, or moved from
+                return "Nested exception";
+            }
             try {
                 std::rethrow_exception(ptr);
             } catch(std::exception& e) {
-- 
2.43.0


From 058e85a8d01c956f6b878724967659c11f988729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 25/46] fix: failures while running addr2line leaked
 descriptors and child processes

---
 src/symbols/symbols_with_addr2line.cpp | 92 ++++++++++++++++----------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 4723476..4e264a9 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -66,34 +66,57 @@ namespace addr2line {
         return has_addr2line;
     }
 
-    struct pipe_ends {
-        int read;
-        int write;
+    class file_descriptor {
+        int fd;
+    public:
+        explicit file_descriptor(int fd = -1) : fd(fd) {}
+        file_descriptor(const file_descriptor&) = delete;
+        file_descriptor& operator=(const file_descriptor&) = delete;
+        ~file_descriptor() {
+            close();
+        }
+        int get() const {
+            return fd;
+        }
+        void reset(int new_fd) {
+            close();
+            fd = new_fd;
+        }
+        void close() {
+            if(fd != -1) {
+                ::close(fd);
+                fd = -1;
+            }
+        }
     };
 
     struct pipe_t {
-        union {
-            pipe_ends end;
-            int data[2];
-        };
+        file_descriptor read;
+        file_descriptor write;
+        pipe_t() {
+            int fds[2];
+            if(pipe(fds) != 0) {
+                throw internal_error("call to pipe failed: {}", errno);
+            }
+            read.reset(fds[0]);
+            write.reset(fds[1]);
+        }
     };
-    static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
         pipe_t output_pipe;
         pipe_t input_pipe;
-        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
-            throw internal_error("call to pipe failed: {}", errno);
-        }
         const pid_t pid = fork();
-        if(pid == -1) { return ""; } // error? TODO: Diagnostic
+        if(pid == -1) {
+            throw internal_error("call to fork failed: {}", errno);
+        }
         if(pid == 0) { // child
-            dup2(output_pipe.end.write, STDOUT_FILENO);
-            dup2(input_pipe.end.read, STDIN_FILENO);
-            close(output_pipe.end.read);
-            close(output_pipe.end.write);
-            close(input_pipe.end.read);
-            close(input_pipe.end.write);
+            dup2(output_pipe.write.get(), STDOUT_FILENO);
+            dup2(input_pipe.read.get(), STDIN_FILENO);
+            output_pipe.read.close();
+            output_pipe.write.close();
+            input_pipe.read.close();
+            input_pipe.write.close();
             close(STDERR_FILENO); // TODO: Might be worth conditionally enabling or piping
             #ifdef CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH
             #if !IS_APPLE
@@ -128,31 +151,36 @@ namespace addr2line {
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        close(input_pipe.end.read);
-        close(output_pipe.end.write);
+        input_pipe.read.close();
+        output_pipe.write.close();
+        // addr2line has to go away on every path out of here, closing the pipes makes it exit
+        auto reap = scope_exit([&] {
+            input_pipe.write.close();
+            output_pipe.read.close();
+            // TODO: check status from addr2line?
+            waitpid(pid, nullptr, 0);
+        });
         // addr2line's output has to be consumed while it's being given its input, it stops reading when nobody takes its
         // output and neither pipe is large enough to hold everything for a large trace
-        fcntl(input_pipe.end.write, F_SETFL, fcntl(input_pipe.end.write, F_GETFL) | O_NONBLOCK);
+        fcntl(input_pipe.write.get(), F_SETFL, fcntl(input_pipe.write.get(), F_GETFL) | O_NONBLOCK);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
         std::size_t written = 0;
-        bool writing = true;
         while(true) {
-            if(writing && written == addresses.size()) {
-                close(input_pipe.end.write);
-                writing = false;
+            if(written == addresses.size()) {
+                input_pipe.write.close();
             }
             pollfd fds[2] = {
-                {output_pipe.end.read, POLLIN, 0},
-                {writing ? input_pipe.end.write : -1, POLLOUT, 0}
+                {output_pipe.read.get(), POLLIN, 0},
+                {input_pipe.write.get(), POLLOUT, 0} // ignored by poll once it's closed
             };
             if(poll(fds, 2, -1) == -1) {
                 throw internal_error("call to poll failed: {}", errno);
             }
             if(fds[1].revents) {
                 const auto count = write(
-                    input_pipe.end.write,
+                    input_pipe.write.get(),
                     addresses.data() + written,
                     addresses.size() - written
                 );
@@ -162,19 +190,13 @@ namespace addr2line {
                 written += count == -1 ? 0 : count;
             }
             if(fds[0].revents) {
-                const auto count = read(output_pipe.end.read, buffer, buffer_size);
+                const auto count = read(output_pipe.read.get(), buffer, buffer_size);
                 if(count <= 0) {
                     break;
                 }
                 output.insert(output.end(), buffer, buffer + count);
             }
         }
-        if(writing) {
-            close(input_pipe.end.write);
-        }
-        // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From ebe7c6b6b789a3a536e65b53cc7bdb640c16c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 26/46] fix: signals arriving while addr2line runs lost symbols

---
 src/symbols/symbols_with_addr2line.cpp | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 4e264a9..65bdb1d 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -31,6 +31,17 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace addr2line {
     #if IS_LINUX || IS_APPLE
+    // retries a system call for as long as it's interrupted by signals
+    template<typename F>
+    auto retry_interrupted(F f) -> decltype(f()) {
+        while(true) {
+            const auto result = f();
+            if(result != -1 || errno != EINTR) {
+                return result;
+            }
+        }
+    }
+
     bool has_addr2line() {
         static std::mutex mutex;
         static bool has_addr2line = false;
@@ -60,7 +71,7 @@ namespace addr2line {
                 _exit(magic);
             }
             int status;
-            waitpid(pid, &status, 0);
+            retry_interrupted([&] { return waitpid(pid, &status, 0); });
             has_addr2line = WEXITSTATUS(status) == 0;
         }
         return has_addr2line;
@@ -158,7 +169,7 @@ namespace addr2line {
             input_pipe.write.close();
             output_pipe.read.close();
             // TODO: check status from addr2line?
-            waitpid(pid, nullptr, 0);
+            retry_interrupted([&] { return waitpid(pid, nullptr, 0); });
         });
         // addr2line's output has to be consumed while it's being given its input, it stops reading when nobody takes its
         // output and neither pipe is large enough to hold everything for a large trace
@@ -175,22 +186,22 @@ namespace addr2line {
                 {output_pipe.read.get(), POLLIN, 0},
                 {input_pipe.write.get(), POLLOUT, 0} // ignored by poll once it's closed
             };
-            if(poll(fds, 2, -1) == -1) {
+            if(retry_interrupted([&] { return poll(fds, 2, -1); }) == -1) {
                 throw internal_error("call to poll failed: {}", errno);
             }
             if(fds[1].revents) {
-                const auto count = write(
-                    input_pipe.write.get(),
-                    addresses.data() + written,
-                    addresses.size() - written
-                );
+                const auto count = retry_interrupted([&] {
+                    return write(input_pipe.write.get(), addresses.data() + written, addresses.size() - written);
+                });
                 if(count == -1 && errno != EAGAIN) {
                     throw internal_error("call to write failed: {}", errno);
                 }
                 written += count == -1 ? 0 : count;
             }
             if(fds[0].revents) {
-                const auto count = read(output_pipe.read.get(), buffer, buffer_size);
+                const auto count = retry_interrupted([&] {
+                    return read(output_pipe.read.get(), buffer, buffer_size);
+                });
                 if(count <= 0) {
                     break;
                 }
-- 
2.43.0


From ef8c6adfbac9f17a212b58495e49fd5fe0d3f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:03 +0000
Subject: [PATCH 27/46] fix: the program died of SIGPIPE when addr2line exited
 early

---
 src/symbols/symbols_with_addr2line.cpp | 37 +++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 65bdb1d..6a81068 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -19,6 +19,8 @@
 #if IS_LINUX || IS_APPLE
  #include <fcntl.h>
  #include <poll.h>
+ #include <pthread.h>
+ #include <signal.h>
  #include <unistd.h>
  #include <sys/types.h>
  #include <sys/wait.h>
@@ -114,6 +116,33 @@ namespace addr2line {
         }
     };
 
+    // write without a SIGPIPE when there's nobody to read: the signal would end the program
+    ssize_t write_without_sigpipe(int fd, const char* data, std::size_t size) {
+        sigset_t sigpipe;
+        sigemptyset(&sigpipe);
+        sigaddset(&sigpipe, SIGPIPE);
+        sigset_t pending;
+        sigemptyset(&pending);
+        sigpending(&pending);
+        const bool was_pending = sigismember(&pending, SIGPIPE) == 1;
+        sigset_t old_mask;
+        if(pthread_sigmask(SIG_BLOCK, &sigpipe, &old_mask) != 0) {
+            throw internal_error("call to pthread_sigmask failed");
+        }
+        const auto count = retry_interrupted([&] { return write(fd, data, size); });
+        const int error = errno;
+        if(count == -1 && error == EPIPE && !was_pending) {
+            sigpending(&pending);
+            if(sigismember(&pending, SIGPIPE) == 1) {
+                int signal;
+                sigwait(&sigpipe, &signal);
+            }
+        }
+        pthread_sigmask(SIG_SETMASK, &old_mask, nullptr);
+        errno = error;
+        return count;
+    }
+
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
         pipe_t output_pipe;
         pipe_t input_pipe;
@@ -190,9 +219,11 @@ namespace addr2line {
                 throw internal_error("call to poll failed: {}", errno);
             }
             if(fds[1].revents) {
-                const auto count = retry_interrupted([&] {
-                    return write(input_pipe.write.get(), addresses.data() + written, addresses.size() - written);
-                });
+                const auto count = write_without_sigpipe(
+                    input_pipe.write.get(),
+                    addresses.data() + written,
+                    addresses.size() - written
+                );
                 if(count == -1 && errno != EAGAIN) {
                     throw internal_error("call to write failed: {}", errno);
                 }
-- 
2.43.0


From 3edf7e21f1dd5fba90a5e1318648b77c81c0ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 28/46] fix: transient failures while probing for addr2line
 disabled it for good

---
 src/symbols/symbols_with_addr2line.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 6a81068..a5cf9bf 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -50,7 +50,6 @@ namespace addr2line {
         static bool checked = false;
         std::lock_guard<std::mutex> lock(mutex);
         if(!checked) {
-            checked = true;
             // Detects if addr2line exists by trying to invoke addr2line --help
             constexpr int magic = 42;
             const pid_t pid = fork();
@@ -73,8 +72,15 @@ namespace addr2line {
                 _exit(magic);
             }
             int status;
-            retry_interrupted([&] { return waitpid(pid, &status, 0); });
+            if(retry_interrupted([&] { return waitpid(pid, &status, 0); }) == -1) {
+                // the status isn't available if the program ignores SIGCHLD or reaps all children itself
+                return true;
+            }
+            if(!WIFEXITED(status)) {
+                return false;
+            }
             has_addr2line = WEXITSTATUS(status) == 0;
+            checked = true;
         }
         return has_addr2line;
     }
-- 
2.43.0


From 2b5c3d327ae2b4e4502a2266fda8a726c0efa79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 29/46] fix: cut off addr2line output was reported as a
 different location

---
 src/symbols/symbols_with_addr2line.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index a5cf9bf..6b32a8c 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -245,6 +245,8 @@ namespace addr2line {
                 output.insert(output.end(), buffer, buffer + count);
             }
         }
+        // a last line which doesn't end was cut off, it'd be mistaken for a different file or line
+        output.erase(output.rfind('\n') + 1);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From b6b7f8b83354984498630d1172b94d795985f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 30/46] fix: addr2line pipes leaked into other children and
 broke with closed standard descriptors

---
 src/symbols/symbols_with_addr2line.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 6b32a8c..46638dc 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -114,11 +114,26 @@ namespace addr2line {
         file_descriptor write;
         pipe_t() {
             int fds[2];
+            // close-on-exec: other children of this process must not keep the pipes open, addr2line would never see EOF
+            #if IS_LINUX
+            if(pipe2(fds, O_CLOEXEC) != 0) {
+            #else
             if(pipe(fds) != 0) {
+            #endif
                 throw internal_error("call to pipe failed: {}", errno);
             }
             read.reset(fds[0]);
             write.reset(fds[1]);
+            for(auto* end : {&read, &write}) {
+                // the standard descriptors are set up for addr2line and must not be the pipes themselves
+                if(!IS_LINUX || end->get() <= STDERR_FILENO) {
+                    const int fd = fcntl(end->get(), F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+                    if(fd == -1) {
+                        throw internal_error("call to fcntl failed: {}", errno);
+                    }
+                    end->reset(fd);
+                }
+            }
         }
     };
 
-- 
2.43.0


From dc1c19d8c282508954436101f97e01ec9a394abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 31/46] fix: libbacktrace errors lost the frame's address and
 other modules' symbols

---
 src/symbols/symbols_with_libbacktrace.cpp | 44 +++++++++++++++--------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 5233654..d05d731 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -5,6 +5,7 @@
 #include "platform/program_name.hpp"
 #include "utils/error.hpp"
 #include "utils/common.hpp"
+#include "utils/microfmt.hpp"
 #include "options.hpp"
 
 #include <cstdint>
@@ -12,6 +13,7 @@
 #include <memory>
 #include <mutex>
 #include <stdexcept>
+#include <string>
 #include <vector>
 
 #ifdef CPPTRACE_BACKTRACE_PATH
@@ -23,8 +25,13 @@
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace libbacktrace {
+    struct lookup {
+        stacktrace_frame frame;
+        std::string error;
+    };
+
     int full_callback(void* data, std::uintptr_t address, const char* file, int line, const char* symbol) {
-        stacktrace_frame& frame = *static_cast<stacktrace_frame*>(data);
+        stacktrace_frame& frame = static_cast<lookup*>(data)->frame;
         frame.raw_address = address;
         frame.line = line;
         frame.filename = file ? file : "";
@@ -33,31 +40,36 @@ namespace libbacktrace {
     }
 
     void syminfo_callback(void* data, std::uintptr_t address, const char* symbol, std::uintptr_t, std::uintptr_t) {
-        stacktrace_frame& frame = *static_cast<stacktrace_frame*>(data);
+        stacktrace_frame& frame = static_cast<lookup*>(data)->frame;
         frame.raw_address = address;
         frame.line = 0;
         frame.filename = "";
         frame.symbol = symbol ? symbol : "";
     }
 
-    void error_callback(void*, const char* msg, int errnum) {
+    // libbacktrace isn't made for exceptions passing through it and carries on with other modules and the symbol table
+    // after an error, so errors are only recorded here
+    void error_callback(void* data, const char* msg, int errnum) {
         if(msg == std::string("no debug info in ELF executable")) {
             // https://github.com/jeremy-rifkin/cpptrace/issues/114
             // https://github.com/ianlancetaylor/libbacktrace/blob/ae1e707dbacd4a5cc82fcf2d3816f410e9c5fec4/elf.c#L592
             // not a critical error, just return
             return;
         }
-        throw internal_error("Libbacktrace error: {}, code {}", msg, errnum);
+        static_cast<lookup*>(data)->error = microfmt::format("Libbacktrace error: {}, code {}", msg, errnum);
     }
 
-    backtrace_state* get_backtrace_state() {
+    backtrace_state* get_backtrace_state(lookup& data) {
         static std::mutex mutex;
         const std::lock_guard<std::mutex> lock(mutex);
         // backtrace_create_state must be called only one time per program
         static backtrace_state* state = nullptr;
         static bool called = false;
         if(!called) {
-            state = backtrace_create_state(program_name(), true, error_callback, nullptr);
+            state = backtrace_create_state(program_name(), true, error_callback, &data);
+            if(!state) {
+                throw internal_error(data.error);
+            }
             called = true;
         }
         return state;
@@ -65,31 +77,33 @@ namespace libbacktrace {
 
     // TODO: Handle backtrace_pcinfo calling the callback multiple times on inlined functions
     stacktrace_frame resolve_frame(const frame_ptr addr) {
+        lookup data{null_frame(), ""};
+        data.frame.raw_address = addr;
         try {
-            stacktrace_frame frame = null_frame();
-            frame.raw_address = addr;
             backtrace_pcinfo(
-                get_backtrace_state(),
+                get_backtrace_state(data),
                 addr,
                 full_callback,
                 error_callback,
-                &frame
+                &data
             );
-            if(frame.symbol.empty()) {
+            if(data.frame.symbol.empty()) {
                 // fallback, try to at least recover the symbol name with backtrace_syminfo
                 backtrace_syminfo(
-                    get_backtrace_state(),
+                    get_backtrace_state(data),
                     addr,
                     syminfo_callback,
                     error_callback,
-                    &frame
+                    &data
                 );
             }
-            return frame;
+            if(!data.error.empty()) {
+                throw internal_error(data.error);
+            }
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
-            return null_frame();
         }
+        return data.frame;
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
-- 
2.43.0


From e7452010e848650dd3a0df943504de5e385f966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 32/46] fix: failing to open a module once was remembered for
 good

---
 src/binary/elf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 933a53b..8792f1b 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -508,15 +508,19 @@ namespace detail {
         } else {
             static std::mutex m;
             std::unique_lock<std::mutex> lock{m};
-            // TODO: Re-evaluate storing the error
-            static std::unordered_map<std::string, Result<elf, internal_error>> cache;
+            // errors aren't stored, they may be transient
+            static std::unordered_map<std::string, elf> cache;
             auto it = cache.find(object_path);
             if(it == cache.end()) {
-                auto res = cache.emplace(object_path, elf::open(object_path));
+                auto obj = elf::open(object_path);
+                if(!obj) {
+                    return std::move(obj).unwrap_error();
+                }
+                auto res = cache.emplace(object_path, std::move(obj).unwrap_value());
                 VERIFY(res.second);
                 it = res.first;
             }
-            return it->second.transform([](elf& obj) { return maybe_owned<elf>(&obj); });
+            return maybe_owned<elf>(&it->second);
         }
     }
 }
-- 
2.43.0


From e1560c06e1d1461a9f805d41548c2e690155857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 33/46] fix: data races between jit object registration,
 removal and lookup

register_jit_object, unregister_jit_object, clear_all_jit_objects and trace
resolution all used the same unguarded containers.
---
 src/jit/jit_objects.cpp               | 22 +++++++++++++++-------
 src/jit/jit_objects.hpp               |  9 ++++-----
 src/symbols/symbols_with_libdwarf.cpp |  7 +++----
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 6b20bab..6bb45e5 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -11,12 +11,16 @@
 #include <iostream>
 #include <fstream>
 #include <map>
+#include <mutex>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     #if IS_LINUX || IS_APPLE
     class jit_object_manager {
+        // guards everything here, including the objects which load their contents on demand
+        mutable std::mutex mutex;
+
         struct object_entry {
             const char* object_start;
             std::unique_ptr<jit_object_type> object;
@@ -44,8 +48,7 @@ namespace detail {
                 }
                 return;
             }
-            objects.push_back({object.data(), make_unique<jit_object_type>(std::move(object_res).unwrap_value())});
-            auto* object_file = objects.back().object.get();
+            auto object_file = make_unique<jit_object_type>(std::move(object_res).unwrap_value());
             auto ranges_res = object_file->get_pc_ranges();
             if(ranges_res.is_error()) {
                 if(!should_absorb_trace_exceptions()) {
@@ -54,17 +57,20 @@ namespace detail {
                 return;
             }
             auto& ranges = ranges_res.unwrap_value();
+            std::lock_guard<std::mutex> lock(mutex);
             for(auto range : ranges) {
                 if(range.low >= range.high) {
                     continue; // an empty range would only hide the range it's in front of
                 }
-                range_entry entry{range.low, range.high, object.data(), object_file};
+                range_entry entry{range.low, range.high, object.data(), object_file.get()};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
             }
+            objects.push_back({object.data(), std::move(object_file)});
         }
 
         void remove_jit_object(const char* ptr) {
+            std::lock_guard<std::mutex> lock(mutex);
             // TODO: Perf
             objects.erase(
                 std::remove_if(
@@ -84,7 +90,8 @@ namespace detail {
             );
         }
 
-        optional<jit_object_lookup_result> lookup(frame_ptr pc) const {
+        optional<std::string> lookup_symbol(frame_ptr pc) const {
+            std::lock_guard<std::mutex> lock(mutex);
             auto it = first_less_than_or_equal(
                 range_list.begin(),
                 range_list.end(),
@@ -98,13 +105,14 @@ namespace detail {
             }
             ASSERT(pc >= it->low);
             if(pc < it->high) {
-                return jit_object_lookup_result{*it->object, it->low};
+                return it->object->lookup_symbol(pc - it->low).value_or("");
             } else {
                 return nullopt;
             }
         }
 
         void clear_all_jit_objects() {
+            std::lock_guard<std::mutex> lock(mutex);
             objects.clear();
             range_list.clear();
         }
@@ -139,8 +147,8 @@ namespace detail {
     }
 
     #if IS_LINUX || IS_APPLE
-    optional<jit_object_lookup_result> lookup_jit_object(frame_ptr pc) {
-        return get_jit_object_manager().lookup(pc);
+    optional<std::string> lookup_jit_symbol(frame_ptr pc) {
+        return get_jit_object_manager().lookup_symbol(pc);
     }
     #endif
 }
diff --git a/src/jit/jit_objects.hpp b/src/jit/jit_objects.hpp
index 8f952b3..4c353b9 100644
--- a/src/jit/jit_objects.hpp
+++ b/src/jit/jit_objects.hpp
@@ -7,6 +7,8 @@
 #include "utils/optional.hpp"
 #include "platform/platform.hpp"
 
+#include <string>
+
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     void register_jit_object(const char*, std::size_t);
@@ -19,11 +21,8 @@ namespace detail {
     #elif IS_APPLE
      using jit_object_type = mach_o;
     #endif
-    struct jit_object_lookup_result {
-        jit_object_type& object;
-        frame_ptr base;
-    };
-    optional<jit_object_lookup_result> lookup_jit_object(frame_ptr pc);
+    // returns nullopt if pc isn't in any jit object, the symbol is empty if the object has none for it
+    optional<std::string> lookup_jit_symbol(frame_ptr pc);
     #endif
 }
 CPPTRACE_END_NAMESPACE
diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 19dc334..55ebfd8 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -88,13 +88,12 @@ namespace libdwarf {
     #if IS_LINUX || IS_APPLE
     CPPTRACE_FORCE_NO_INLINE_FOR_PROFILING
     void try_resolve_jit_frame(const cpptrace::object_frame& dlframe, frame_with_inlines& frame) {
-        auto object_res = lookup_jit_object(dlframe.raw_address);
+        auto symbol = lookup_jit_symbol(dlframe.raw_address);
         // TODO: At some point, dwarf resolution
-        if(object_res) {
+        if(symbol) {
             frame.frame.raw_address = dlframe.raw_address;
             frame.frame.object_address = dlframe.object_address;
-            frame.frame.symbol = object_res.unwrap().object
-                .lookup_symbol(dlframe.raw_address - object_res.unwrap().base).value_or("");
+            frame.frame.symbol = std::move(symbol).unwrap();
         }
     }
     #endif
-- 
2.43.0


From d0d9efe488c1114a9eefda5a6d0a14d88e579ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 34/46] fix: data race between set_log_callback and logging

---
 src/logging.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 98045ef..09aea43 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -4,6 +4,9 @@
 #include <cpptrace/utils.hpp>
 
 #include <atomic>
+#include <functional>
+#include <mutex>
+#include <utility>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
@@ -15,16 +18,37 @@ namespace detail {
         microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
     }
 
-    std::function<void(log_level, const char*)>& log_callback() {
-        static std::function<void(log_level, const char*)> callback{default_null_logger};
+    using log_callback_type = std::function<void(log_level, const char*)>;
+
+    std::mutex& log_callback_mutex() {
+        static std::mutex mutex;
+        return mutex;
+    }
+
+    // log_callback_mutex must be held
+    log_callback_type& log_callback() {
+        static log_callback_type callback{default_null_logger};
         return callback;
     }
 
+    log_callback_type get_log_callback() {
+        std::lock_guard<std::mutex> lock(log_callback_mutex());
+        return log_callback();
+    }
+
+    void replace_log_callback(log_callback_type callback) {
+        // the old callback is destroyed after the mutex is released
+        std::lock_guard<std::mutex> lock(log_callback_mutex());
+        log_callback().swap(callback);
+    }
+
     void do_log(log_level level, const char* message) {
         if(level < current_log_level) {
             return;
         }
-        log_callback()(level, message);
+        // called without the mutex held, the callback may log or replace itself
+        const auto callback = get_log_callback();
+        callback(level, message);
     }
 
     namespace log {
@@ -53,11 +77,11 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     void set_log_callback(std::function<void(log_level, const char*)> callback) {
-        detail::log_callback() = std::move(callback);
+        detail::replace_log_callback(std::move(callback));
     }
 
     void use_default_stderr_logger() {
-        detail::log_callback() = detail::default_stderr_logger;
+        detail::replace_log_callback(detail::default_stderr_logger);
     }
 
     const char* to_string(log_level level) {
-- 
2.43.0


From 5cfeb5941dda5a416da3ad128c626dc48034172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 35/46] fix: logging threw bad_function_call with an empty log
 callback

---
 src/logging.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 09aea43..6dc7585 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -48,7 +48,9 @@ namespace detail {
         }
         // called without the mutex held, the callback may log or replace itself
         const auto callback = get_log_callback();
-        callback(level, message);
+        if(callback) {
+            callback(level, message);
+        }
     }
 
     namespace log {
-- 
2.43.0


From 06f3b9ff5fec20a9b6966bce5f889f3f6676569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 36/46] fix: data race between module base lookup and symbol
 lookup on a cached object

---
 src/binary/module_base.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/binary/module_base.cpp b/src/binary/module_base.cpp
index ec78b03..229ac66 100644
--- a/src/binary/module_base.cpp
+++ b/src/binary/module_base.cpp
@@ -30,12 +30,13 @@ namespace detail {
         if(it == cache.end()) {
             // arguably it'd be better to release the lock while computing this, but also arguably it's good to not
             // have two threads try to do the same computation
-            auto elf_object = open_elf_cached(object_path);
+            // a private object, the cached ones load on demand and belong to the symbol resolution and its lock
+            auto elf_object = elf::open(object_path);
             // TODO: Cache the error
             if(!elf_object) {
                 return elf_object.unwrap_error();
             }
-            auto base = elf_object.unwrap_value()->get_module_image_base();
+            auto base = elf_object.unwrap_value().get_module_image_base();
             if(base.is_error()) {
                 return std::move(base).unwrap_error();
             }
@@ -57,12 +58,13 @@ namespace detail {
         if(it == cache.end()) {
             // arguably it'd be better to release the lock while computing this, but also arguably it's good to not
             // have two threads try to do the same computation
-            auto mach_o_object = open_mach_o_cached(object_path);
+            // a private object, the cached ones load on demand and belong to the symbol resolution and its lock
+            auto mach_o_object = mach_o::open(object_path);
             // TODO: Cache the error
             if(!mach_o_object) {
                 return mach_o_object.unwrap_error();
             }
-            auto base = mach_o_object.unwrap_value()->get_text_vmaddr();
+            auto base = mach_o_object.unwrap_value().get_text_vmaddr();
             if(!base) {
                 return std::move(base).unwrap_error();
             }
-- 
2.43.0


From ef105c0c27feed457ead3c450ad5100ff06acce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 37/46] fix: null handles and null names crashed parts of the C
 API

---
 src/ctrace.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a720821..553bf5d 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -116,8 +116,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -149,7 +149,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -344,7 +344,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -442,6 +442,9 @@ extern "C" {
     }
 
     ctrace_object_frame ctrace_get_object_info(const ctrace_stacktrace_frame* frame) {
+        if(!frame) {
+            return {0, 0, nullptr};
+        }
         try {
             cpptrace::object_frame new_frame = cpptrace::detail::get_frame_object_info(frame->raw_address);
             return ctrace::convert_object_frame(new_frame);
-- 
2.43.0


From 921a4b92d1344dbf3f942f720ed70337fe13ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 38/46] fix: ctrace_resolve_object_trace ignored the object
 paths and addresses

---
 src/ctrace.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 553bf5d..1b372a9 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -278,13 +278,14 @@ extern "C" {
             return { nullptr, 0 };
         }
         try {
-            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);
+            // the objects may not be loaded here, e.g. for a trace from another process, so the raw addresses aren't enough
+            std::vector<cpptrace::object_frame> frames(trace->count);
             std::transform(
                 trace->frames,
                 trace->frames + trace->count,
                 frames.begin(),
-                [] (const ctrace_object_frame& frame) -> cpptrace::frame_ptr {
-                    return frame.raw_address;
+                [] (const ctrace_object_frame& frame) -> cpptrace::object_frame {
+                    return {frame.raw_address, frame.obj_address, frame.obj_path ? frame.obj_path : ""};
                 }
             );
             std::vector<cpptrace::stacktrace_frame> resolved = cpptrace::detail::resolve_frames(frames);
-- 
2.43.0


From fc8c84d0854a09e0fad8b180273d18d7c128f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 39/46] fix: missing line break between the terminate notice
 and the trace

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 59e005b..31aa64b 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -60,7 +60,7 @@ CPPTRACE_BEGIN_NAMESPACE
         try {
             auto ptr = std::current_exception();
             if(ptr == nullptr) {
-                fputs("terminate called without an active exception", stderr);
+                fputs("terminate called without an active exception\n", stderr);
                 print_terminate_trace();
             } else {
                 std::rethrow_exception(ptr);
-- 
2.43.0


From 4c597626798c23bd2e25dbeac87a6acab9d06a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 40/46] fix: exceptions caught by destructors after the
 thread's traces were destroyed

---
 src/from_current.cpp | 48 +++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..79a1fc9 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -27,8 +27,28 @@
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
-    thread_local lazy_trace_holder current_exception_trace;
-    thread_local lazy_trace_holder saved_rethrow_trace;
+    // exceptions may be thrown and caught by destructors which run after this thread's traces have been destroyed
+    thread_local bool exception_traces_destroyed = false;
+
+    struct exception_traces {
+        lazy_trace_holder current_exception_trace;
+        lazy_trace_holder saved_rethrow_trace;
+        ~exception_traces() {
+            exception_traces_destroyed = true;
+        }
+    };
+
+    exception_traces& get_exception_traces() {
+        if(exception_traces_destroyed) {
+            static thread_local exception_traces* late_traces = nullptr;
+            if(!late_traces) {
+                late_traces = new exception_traces;
+            }
+            return *late_traces;
+        }
+        static thread_local exception_traces traces;
+        return traces;
+    }
 
     bool& get_rethrow_switch() {
         static thread_local bool rethrow_switch = false;
@@ -37,10 +57,10 @@ namespace detail {
 
     void save_current_trace(raw_trace trace) {
         if(get_rethrow_switch()) {
-            saved_rethrow_trace = lazy_trace_holder(std::move(trace));
+            get_exception_traces().saved_rethrow_trace = lazy_trace_holder(std::move(trace));
         } else {
-            current_exception_trace = lazy_trace_holder(std::move(trace));
-            saved_rethrow_trace = lazy_trace_holder();
+            get_exception_traces().current_exception_trace = lazy_trace_holder(std::move(trace));
+            get_exception_traces().saved_rethrow_trace = lazy_trace_holder();
         }
     }
 
@@ -417,26 +437,26 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     const raw_trace& raw_trace_from_current_exception() {
-        return detail::current_exception_trace.get_raw_trace();
+        return detail::get_exception_traces().current_exception_trace.get_raw_trace();
     }
 
     const stacktrace& from_current_exception() {
-        return detail::current_exception_trace.get_resolved_trace();
+        return detail::get_exception_traces().current_exception_trace.get_resolved_trace();
     }
 
     const raw_trace& raw_trace_from_current_exception_rethrow() {
-        return detail::saved_rethrow_trace.get_raw_trace();
+        return detail::get_exception_traces().saved_rethrow_trace.get_raw_trace();
     }
 
     const stacktrace& from_current_exception_rethrow() {
-        return detail::saved_rethrow_trace.get_resolved_trace();
+        return detail::get_exception_traces().saved_rethrow_trace.get_resolved_trace();
     }
 
     bool current_exception_was_rethrown() {
-        if(detail::saved_rethrow_trace.is_resolved()) {
-            return !detail::saved_rethrow_trace.get_resolved_trace().empty();
+        if(detail::get_exception_traces().saved_rethrow_trace.is_resolved()) {
+            return !detail::get_exception_traces().saved_rethrow_trace.get_resolved_trace().empty();
         } else {
-            return !detail::saved_rethrow_trace.get_raw_trace().empty();
+            return !detail::get_exception_traces().saved_rethrow_trace.get_raw_trace().empty();
         }
     }
 
@@ -452,7 +472,7 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     void clear_current_exception_traces() {
-        detail::current_exception_trace = detail::lazy_trace_holder{raw_trace{}};
-        detail::saved_rethrow_trace = detail::lazy_trace_holder{raw_trace{}};
+        detail::get_exception_traces().current_exception_trace = detail::lazy_trace_holder{raw_trace{}};
+        detail::get_exception_traces().saved_rethrow_trace = detail::lazy_trace_holder{raw_trace{}};
     }
 CPPTRACE_END_NAMESPACE
-- 
2.43.0


From bbe07edbd49cabea6128da75200228cf7cbe5356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 41/46] fix: traces generated by static destructors used
 destroyed caches

---
 src/binary/elf.cpp                    | 3 ++-
 src/binary/module_base.cpp            | 9 ++++++---
 src/binary/object.cpp                 | 3 ++-
 src/cpptrace.cpp                      | 3 ++-
 src/formatting.cpp                    | 5 +++--
 src/jit/jit_objects.cpp               | 3 ++-
 src/logging.cpp                       | 3 ++-
 src/platform/program_name.hpp         | 9 ++++++---
 src/snippets/snippet.cpp              | 3 ++-
 src/symbols/symbols_with_libdwarf.cpp | 3 ++-
 10 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 8792f1b..0ca7593 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -509,7 +509,8 @@ namespace detail {
             static std::mutex m;
             std::unique_lock<std::mutex> lock{m};
             // errors aren't stored, they may be transient
-            static std::unordered_map<std::string, elf> cache;
+            // never destroyed, traces may be generated by static destructors
+            static auto& cache = *new std::unordered_map<std::string, elf>;
             auto it = cache.find(object_path);
             if(it == cache.end()) {
                 auto obj = elf::open(object_path);
diff --git a/src/binary/module_base.cpp b/src/binary/module_base.cpp
index 229ac66..7877551 100644
--- a/src/binary/module_base.cpp
+++ b/src/binary/module_base.cpp
@@ -25,7 +25,8 @@ namespace detail {
     Result<std::uintptr_t, internal_error> get_module_image_base(const std::string& object_path) {
         static std::mutex mutex;
         std::lock_guard<std::mutex> lock(mutex);
-        static std::unordered_map<std::string, std::uintptr_t> cache;
+        // never destroyed, traces may be generated by static destructors
+        static auto& cache = *new std::unordered_map<std::string, std::uintptr_t>;
         auto it = cache.find(object_path);
         if(it == cache.end()) {
             // arguably it'd be better to release the lock while computing this, but also arguably it's good to not
@@ -53,7 +54,8 @@ namespace detail {
         // now that there is only one, and I'm using only the first section entry within that load command.
         static std::mutex mutex;
         std::lock_guard<std::mutex> lock(mutex);
-        static std::unordered_map<std::string, std::uintptr_t> cache;
+        // never destroyed, traces may be generated by static destructors
+        static auto& cache = *new std::unordered_map<std::string, std::uintptr_t>;
         auto it = cache.find(object_path);
         if(it == cache.end()) {
             // arguably it'd be better to release the lock while computing this, but also arguably it's good to not
@@ -78,7 +80,8 @@ namespace detail {
     Result<std::uintptr_t, internal_error> get_module_image_base(const std::string& object_path) {
         static std::mutex mutex;
         std::lock_guard<std::mutex> lock(mutex);
-        static std::unordered_map<std::string, std::uintptr_t> cache;
+        // never destroyed, traces may be generated by static destructors
+        static auto& cache = *new std::unordered_map<std::string, std::uintptr_t>;
         auto it = cache.find(object_path);
         if(it == cache.end()) {
             // arguably it'd be better to release the lock while computing this, but also arguably it's good to not
diff --git a/src/binary/object.cpp b/src/binary/object.cpp
index 55a53d5..e454993 100644
--- a/src/binary/object.cpp
+++ b/src/binary/object.cpp
@@ -116,7 +116,8 @@ namespace detail {
     std::string get_module_name(HMODULE handle) {
         static std::mutex mutex;
         std::lock_guard<std::mutex> lock(mutex);
-        static std::unordered_map<HMODULE, std::string> cache;
+        // never destroyed, traces may be generated by static destructors
+        static auto& cache = *new std::unordered_map<HMODULE, std::string>;
         auto it = cache.find(handle);
         if(it == cache.end()) {
             char path[MAX_PATH];
diff --git a/src/cpptrace.cpp b/src/cpptrace.cpp
index f4b8be9..8a16194 100644
--- a/src/cpptrace.cpp
+++ b/src/cpptrace.cpp
@@ -167,7 +167,8 @@ CPPTRACE_BEGIN_NAMESPACE
 
     namespace detail {
         const formatter& get_default_snippet_formatter() {
-            static formatter snippet_formatter = formatter{}.snippets(true);
+            // never destroyed, traces may be generated by static destructors
+            static const formatter& snippet_formatter = *new formatter(formatter{}.snippets(true));
             return snippet_formatter;
         }
     }
diff --git a/src/formatting.cpp b/src/formatting.cpp
index b00d726..bd344f8 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -530,7 +530,8 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     const formatter& get_default_formatter() {
-        static formatter formatter;
-        return formatter;
+        // never destroyed, traces may be generated by static destructors
+        static const formatter& default_formatter = *new formatter;
+        return default_formatter;
     }
 CPPTRACE_END_NAMESPACE
diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 6bb45e5..6f247d3 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -127,7 +127,8 @@ namespace detail {
     #endif
 
     jit_object_manager& get_jit_object_manager() {
-        static jit_object_manager manager;
+        // never destroyed, traces and objects may be used by static destructors
+        static auto& manager = *new jit_object_manager;
         return manager;
     }
 
diff --git a/src/logging.cpp b/src/logging.cpp
index 6dc7585..744b9d5 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -27,7 +27,8 @@ namespace detail {
 
     // log_callback_mutex must be held
     log_callback_type& log_callback() {
-        static log_callback_type callback{default_null_logger};
+        // never destroyed, diagnostics may be raised by static destructors
+        static auto& callback = *new log_callback_type{default_null_logger};
         return callback;
     }
 
diff --git a/src/platform/program_name.hpp b/src/platform/program_name.hpp
index 769d13b..30bffe8 100644
--- a/src/platform/program_name.hpp
+++ b/src/platform/program_name.hpp
@@ -19,7 +19,8 @@ namespace detail {
     inline const char* program_name() {
         static std::mutex mutex;
         const std::lock_guard<std::mutex> lock(mutex);
-        static std::string name;
+        // never destroyed, traces may be generated by static destructors
+        static auto& name = *new std::string;
         static bool did_init = false;
         static bool valid = false;
         if(!did_init) {
@@ -49,7 +50,8 @@ namespace detail {
     inline const char* program_name() {
         static std::mutex mutex;
         const std::lock_guard<std::mutex> lock(mutex);
-        static std::string name;
+        // never destroyed, traces may be generated by static destructors
+        static auto& name = *new std::string;
         static bool did_init = false;
         static bool valid = false;
         if(!did_init) {
@@ -78,7 +80,8 @@ namespace detail {
     inline const char* program_name() {
         static std::mutex mutex;
         const std::lock_guard<std::mutex> lock(mutex);
-        static std::string name;
+        // never destroyed, traces may be generated by static destructors
+        static auto& name = *new std::string;
         static bool did_init = false;
         static bool valid = false;
         if(!did_init) {
diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 9cb0050..736bd46 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -90,7 +90,8 @@ namespace detail {
 
     const snippet_manager& get_manager(const std::string& path) {
         static std::mutex snippet_manager_mutex;
-        static std::unordered_map<std::string, const snippet_manager> snippet_managers;
+        // never destroyed, traces may be generated by static destructors
+        static auto& snippet_managers = *new std::unordered_map<std::string, const snippet_manager>;
         std::unique_lock<std::mutex> lock(snippet_manager_mutex);
         auto it = snippet_managers.find(path);
         if(it == snippet_managers.end()) {
diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 55ebfd8..1013877 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -34,7 +34,8 @@ namespace libdwarf {
     // not thread-safe, replies on caller to lock
     maybe_owned<symbol_resolver> get_resolver(const std::string& object_name) {
         // cache resolvers since objects are likely to be traced more than once
-        static std::unordered_map<std::string, std::unique_ptr<symbol_resolver>> resolver_map;
+        // never destroyed, traces may be generated by static destructors
+        static auto& resolver_map = *new std::unordered_map<std::string, std::unique_ptr<symbol_resolver>>;
         auto it = resolver_map.find(object_name);
         if(it != resolver_map.end()) {
             return it->second.get();
-- 
2.43.0


From 7d6b4114cbed2edc56494d0d60cf20a9635f5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 42/46] fix: trimming a string of nothing but whitespace threw

---
 src/utils/utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index d255940..7ef2077 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -80,6 +80,9 @@ namespace detail {
             return "";
         }
         const std::size_t left = str.find_first_not_of(whitespace);
+        if(left == std::string::npos) {
+            return "";
+        }
         const std::size_t right = str.find_last_not_of(whitespace) + 1;
         return str.substr(left, right - left);
     }
-- 
2.43.0


From fb402b93faab7adce34a81346b9278391b69e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 43/46] fix: formatting INT64_MIN overflowed

---
 src/utils/microfmt.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 9dc3edf..279ed8f 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -163,12 +163,13 @@ namespace microfmt {
                     case value_type::int64_value:
                         {
                             std::string str;
-                            std::int64_t val = int64_value;
-                            if(val < 0) {
+                            // the magnitude is computed unsigned as INT64_MIN can't be negated
+                            std::uint64_t val = static_cast<std::uint64_t>(int64_value);
+                            if(int64_value < 0) {
                                 str += '-';
-                                val *= -1;
+                                val = 0 - val;
                             }
-                            str += to_string(static_cast<std::uint64_t>(val), options);
+                            str += to_string(val, options);
                             do_write(out, str.begin(), str.end(), options);
                         }
                         break;
-- 
2.43.0


From b35aefedcadbe98b05bd0edd79ca545500c99b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 44/46] fix: diagnostics on stderr from several threads were
 mixed character by character

---
 src/logging.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 744b9d5..99c6a27 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -5,6 +5,7 @@
 
 #include <atomic>
 #include <functional>
+#include <iostream>
 #include <mutex>
 #include <utility>
 
@@ -15,7 +16,9 @@ namespace detail {
     void default_null_logger(log_level, const char*) {}
 
     void default_stderr_logger(log_level level, const char* message) {
-        microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
+        // written at once, other threads may be logging
+        const auto line = microfmt::format("[cpptrace {}] {}\n", to_string(level), message);
+        std::cerr.write(line.data(), static_cast<std::streamsize>(line.size()));
     }
 
     using log_callback_type = std::function<void(log_level, const char*)>;
-- 
2.43.0


From 803872478af183f4ccb36ed2c545a5986cb353ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 45/46] fix: a JIT registration that ran out of memory left
 ranges of a destroyed object behind

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 6f247d3..e759b98 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -58,6 +58,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             std::lock_guard<std::mutex> lock(mutex);
+            // nothing below may throw, that would leave ranges behind without their object
+            objects.reserve(objects.size() + 1);
+            range_list.reserve(range_list.size() + ranges.size());
             for(auto range : ranges) {
                 if(range.low >= range.high) {
                     continue; // an empty range would only hide the range it's in front of
-- 
2.43.0


From 15c4d6d924a677e5007f56cb7309b176f76cad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 46/46] fix: prettifying a prettified std::string template
 constructor dropped its name

---
 src/formatting.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index bd344f8..c39fd01 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -36,12 +36,13 @@ CPPTRACE_BEGIN_NAMESPACE
         detail::replace_all(symbol, msvc_anonymous_namespace, "(anonymous namespace)");
         // rules to replace std::basic_string -> std::string and std::basic_string_view -> std::string
         // rule to replace ", std::allocator<whatever>"
+        // std::string::basic_string<char const*> is a constructor, not a type
         static const std::pair<std::regex, std::string> basic_string = {
-            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string<char\b)"), "std::string"
+            std::regex(R"(\bstd(::(?!string(_view)?::)[a-zA-Z0-9_]+)?::basic_string<char\b)"), "std::string"
         };
         detail::replace_all_template(symbol, basic_string);
         static const std::pair<std::regex, std::string> basic_string_view = {
-            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string_view<char\b)"), "std::string_view"
+            std::regex(R"(\bstd(::(?!string(_view)?::)[a-zA-Z0-9_]+)?::basic_string_view<char\b)"), "std::string_view"
         };
         detail::replace_all_template(symbol, basic_string_view);
         static const std::pair<std::regex, std::string> allocator = {
-- 
2.43.0

