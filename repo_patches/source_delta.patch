From 74f20006fb8125d609c96e02929523395b4ddf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:38 +0000
Subject: [PATCH 01/47] fix: construct queued records in place in the
 asynchronous sink

Cells of the queue are raw memory, assigning into them is undefined behavior
(crashes for records with short strings). Copying of the record is also done
before a cell is claimed: an exception thrown while copying (for example by a
lazy attribute) left the cell unpublished forever.
---
 src/sink/asynchronous.p.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..e5bb653 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <condition_variable>
 #include <mutex>
+#include <new>
 
 namespace blackhole {
 inline namespace v1 {
@@ -92,6 +93,8 @@ auto asynchronous_t::capacity() const -> std::size_t {
 }
 
 auto asynchronous_t::emit(const record_t& record, const string_view& message) -> void {
+    value_type value{recordbuf_t(record), message.to_string()};
+
     while (true) {
         // TODO: Uncomment.
         // switch (filter->filter(record, message)) {
@@ -102,8 +105,10 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         //     return;
         // }
 
-        const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+        // Queue cells contain raw memory, so the value must be constructed in place. Everything that
+        // can throw happens before a cell is claimed, otherwise it will never be published.
+        const auto enqueued = queue.enqueue_with([&](value_type& cell) {
+            new (&cell) value_type(std::move(value));
         });
 
         if (enqueued) {
-- 
2.43.0


From bcf696eea7d071ce8100cd36236d0162ec8a783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:38 +0000
Subject: [PATCH 02/47] fix: do not lose records enqueued right before stopping
 the asynchronous sink

---
 src/sink/asynchronous.p.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index e5bb653..7eb1a9a 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -127,12 +127,16 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 
 auto asynchronous_t::run() -> void {
     while (true) {
+        // The flag must be read before looking into the queue. Otherwise a record, that was enqueued
+        // between the unsuccessful dequeue and setting the flag, will be lost.
+        const bool stopping = stopped;
+
         value_type result;
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
         });
 
-        if (stopped && !dequeued) {
+        if (stopping && !dequeued) {
             return;
         }
 
-- 
2.43.0


From c3a32e814af760929e08f8a2b15c3e014555974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:38 +0000
Subject: [PATCH 03/47] fix: hide exceptions of the sink wrapped by the
 asynchronous one

They terminated the process, because there is nobody to catch them in the
worker thread.
---
 src/sink/asynchronous.p.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 7eb1a9a..60a8eaa 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -143,11 +143,12 @@ auto asynchronous_t::run() -> void {
         if (dequeued) {
             try {
                 wrapped->emit(result.record.into_view(), result.message);
-                overflow_policy->wakeup();
             } catch (...) {
-                throw;
+                // Exceptions while writing to the wrapped sink are hidden from the application.
                 // TODO: exception_policy->process();
             }
+
+            overflow_policy->wakeup();
         } else {
             std::this_thread::sleep_for(std::chrono::milliseconds(1));
             // TODO: underflow_policy->underflow(); [wait for enqueue, sleep].
-- 
2.43.0


From 37c4316d6730178d42bf828b2a9ec7312c705d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:38 +0000
Subject: [PATCH 04/47] fix: make the asynchronous sink builder respect the
 chosen overflow policy

---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..9883ae2 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From f019deef5a6cf0eec91b0f750d6e59593c919256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 05/47] fix: remember the lightweight process id a record was
 created by

As documented it must be stored at the construction time. Otherwise records,
that are written by the asynchronous sink, report the id of its worker thread.
---
 src/record.cpp    | 11 ++++++-----
 src/recordbuf.hpp |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/record.cpp b/src/record.cpp
index 79ae526..9ba7899 100644
--- a/src/record.cpp
+++ b/src/record.cpp
@@ -28,6 +28,11 @@ record_t::record_t(severity_t severity,
     inner.severity = severity;
     inner.timestamp = time_point();
 
+#if defined(__linux__)
+    inner.lwp = static_cast<std::uint64_t>(::syscall(SYS_gettid));
+#else
+    inner.lwp = 0;
+#endif
     inner.tid = ::pthread_self();
 
     inner.attributes = attributes;
@@ -54,11 +59,7 @@ auto record_t::pid() const noexcept -> std::uint64_t {
 }
 
 auto record_t::lwp() const noexcept -> std::uint64_t {
-#if defined(__linux__)
-    return ::syscall(SYS_gettid);
-#else
-    return 0;
-#endif
+    return inner().lwp;
 }
 
 auto record_t::tid() const noexcept -> std::thread::native_handle_type {
diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index bd238e6..84c2565 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -133,6 +133,7 @@ public:
         inner.formatted = formatted.view;
         inner.severity = record.severity();
         inner.timestamp = record.timestamp();
+        inner.lwp = record.lwp();
         inner.tid = record.tid();
         inner.attributes = pack;
     }
-- 
2.43.0


From 82d49717ddfaf622ce32dd044349511c67f5332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:17 +0000
Subject: [PATCH 06/47] fix: do not undo a concurrent logger reassignment when
 setting a filter

The configuration was loaded, changed in place and then stored back, which
replaced the one, that was assigned in the meantime.
---
 src/root.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..f2ce9f5 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -138,13 +138,11 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
 
 auto
 root_logger_t::filter(filter_t fn) -> void {
-    auto inner = sync->load(this->inner);
+    const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0


From 2451ceaea742a46d386d8a8eb42b767ab20f7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:20 +0000
Subject: [PATCH 07/47] fix: keep scoped attributes intact when moving loggers

---
 src/root.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index f2ce9f5..e2e145a 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -109,10 +109,10 @@ root_logger_t::root_logger_t(root_logger_t&& other) noexcept :
     sync(new sync_t),
     inner(other.sync->load(other.inner))
 {
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
+    if (auto watcher = other.sync->manager.get()) {
+        watcher->rebind(sync->manager);
+        sync->manager.reset(watcher);
+        other.sync->manager.reset(nullptr);
     }
 }
 
@@ -127,10 +127,10 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     const auto inner = other.sync->load(other.inner);
     sync->store(this->inner, std::move(inner));
 
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
+    if (auto watcher = other.sync->manager.get()) {
+        watcher->rebind(sync->manager);
+        sync->manager.reset(watcher);
+        other.sync->manager.reset(nullptr);
     }
 
     return *this;
-- 
2.43.0


From 0785c2ff93daed834e990743ea5e0608df3810d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 08/47] fix: rebuild the attribute view when copying a wrapper

---
 include/blackhole/wrapper.hpp |  4 ++++
 src/wrapper.cpp               | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/blackhole/wrapper.hpp b/include/blackhole/wrapper.hpp
index d85b0c6..b0959da 100644
--- a/include/blackhole/wrapper.hpp
+++ b/include/blackhole/wrapper.hpp
@@ -15,6 +15,10 @@ class wrapper_t : public logger_t {
 public:
     wrapper_t(logger_t& log, attributes_t attributes);
 
+    /// The view refers to the attributes owned by this very object, so it is always built anew.
+    wrapper_t(const wrapper_t& other);
+    wrapper_t(wrapper_t&& other);
+
     auto attributes() const noexcept -> const view_of<attributes_t>::type& {
         return attributes_view;
     }
diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index ffe9504..31504a8 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -15,6 +15,16 @@ wrapper_t::wrapper_t(logger_t& log, attributes_t attributes):
     }
 }
 
+wrapper_t::wrapper_t(const wrapper_t& other):
+    wrapper_t(other.inner, other.storage)
+{}
+
+wrapper_t::wrapper_t(wrapper_t&& other):
+    wrapper_t(other.inner, std::move(other.storage))
+{
+    other.attributes_view.clear();
+}
+
 auto wrapper_t::log(severity_t severity, const message_t& message) -> void {
     attribute_pack pack{attributes()};
     inner.log(severity, message, pack);
-- 
2.43.0


From 04688fee3d9f2472c0fc2b58f021fa8d2fc22147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:43 +0000
Subject: [PATCH 09/47] fix: destroy replaced handlers and filters outside of
 the logger's locks

---
 src/root.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index e2e145a..6187cbb 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -63,8 +63,9 @@ struct root_logger_t::sync_t {
 #ifdef __APPLE__
         std::atomic_store_explicit(&source, std::move(value), std::memory_order_release);
 #else
+        // The previous value must die outside of the lock, because its destruction runs user code.
         std::lock_guard<mutex_type> lock(mutex);
-        source = std::move(value);
+        source.swap(value);
 #endif
     }
 };
@@ -141,7 +142,7 @@ root_logger_t::filter(filter_t fn) -> void {
     const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
-        inner.filter = std::move(fn);
+        inner.filter.swap(fn);
     });
 }
 
-- 
2.43.0


From 84abe4a6e5818090e7c87180d230efb78252961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:35 +0000
Subject: [PATCH 10/47] fix: report the system's reason when a log file cannot
 be opened

---
 src/sink/file.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..e9f96c5 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/sink/file.hpp"
 
 #include <cctype>
+#include <cerrno>
 
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
@@ -85,18 +86,16 @@ auto ofstream_factory_t::create(const std::string& filename, std::ios_base::open
     std::unique_ptr<std::ostream>
 {
     auto stream = blackhole::make_unique<std::ofstream>();
-    stream->exceptions(std::ifstream::failbit | std::ifstream::badbit);
-
-    try {
-        stream->open(filename, mode);
-    } catch (const std::system_error& err) {
-        // Transform unspecified ios category into the system one to be able to obtain readable
-        // error message instead completely weird description.
-        throw std::system_error(err.code().value(), std::system_category());
-    } catch (...) {
+
+    // Streams report failures using an unspecified ios category, which tells nothing about the real
+    // reason, so check the result manually to be able to obtain the system error.
+    stream->open(filename, mode);
+    if (!stream->is_open()) {
         throw std::system_error(errno, std::system_category());
     }
 
+    stream->exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
     // This hack is needed to trick std::unique_ptr behavior, which is unable to implicitly convert
     // covariant types because of strongly typed deleter.
     return std::unique_ptr<std::ostream>(stream.release());
-- 
2.43.0


From d858ccdfc4a4179224551a7b0e95c38a6f5acd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:24 +0000
Subject: [PATCH 11/47] fix: compare devices in addition to inodes when
 checking for file rotation

---
 src/sink/file/rotate/stat.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sink/file/rotate/stat.hpp b/src/sink/file/rotate/stat.hpp
index e605551..bf79110 100644
--- a/src/sink/file/rotate/stat.hpp
+++ b/src/sink/file/rotate/stat.hpp
@@ -15,11 +15,13 @@ namespace rotate {
 
 class stat_rotate_t : public rotate_t {
     std::string filename;
-    std::int64_t inode;
+    dev_t device;
+    ino_t inode;
 
 public:
     explicit stat_rotate_t(std::string filename) :
         filename(std::move(filename)),
+        device(0),
         inode(0)
     {
         struct stat buf = {};
@@ -28,14 +30,16 @@ public:
             throw std::system_error(errno, std::system_category());
         }
 
-        inode = std::int64_t(buf.st_ino);
+        device = buf.st_dev;
+        inode = buf.st_ino;
     }
 
     auto should_rotate() -> bool override {
         struct stat buf = {};
         auto rc = ::stat(filename.c_str(), &buf);
 
-        return !(rc == 0 && std::int64_t(buf.st_ino) == inode);
+        // Inode numbers are unique only within a single device.
+        return !(rc == 0 && buf.st_dev == device && buf.st_ino == inode);
     }
 };
 
-- 
2.43.0


From ab24322e7461ec4ece6c01d840021cbb8a1d22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:27 +0000
Subject: [PATCH 12/47] fix: refuse malformed and too large flush thresholds as
 invalid arguments

---
 src/sink/file.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index e9f96c5..ca0703a 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -50,18 +50,24 @@ auto bytecount_factory_t::create() const -> std::unique_ptr<flusher_t> {
 }
 
 auto parse_dunit(const std::string& encoded) -> std::uint64_t {
-    const auto ipos = std::find_if(std::begin(encoded), std::end(encoded), [&](char c) -> bool {
+    const auto ipos = std::find_if(std::begin(encoded), std::end(encoded), [&](unsigned char c) -> bool {
         return !std::isdigit(c);
     });
 
-    if (ipos == std::end(encoded)) {
-        return boost::lexical_cast<std::uint64_t>(encoded);
-    }
-
     const auto pos = static_cast<std::size_t>(std::distance(std::begin(encoded), ipos));
-    const auto base = boost::lexical_cast<std::uint64_t>(encoded.substr(0, pos));
     const auto unit = encoded.substr(pos);
 
+    std::uint64_t base = 0;
+    try {
+        base = boost::lexical_cast<std::uint64_t>(encoded.substr(0, pos));
+    } catch (const boost::bad_lexical_cast&) {
+        throw std::invalid_argument("invalid data size - " + encoded);
+    }
+
+    if (unit.empty()) {
+        return base;
+    }
+
     const std::map<std::string, std::uint64_t> mapping {
         {"B",  1},
         {"kB", 1e3},
@@ -77,6 +83,10 @@ auto parse_dunit(const std::string& encoded) -> std::uint64_t {
         throw std::invalid_argument("unknown data unit - " + unit);
     }
 
+    if (base > std::numeric_limits<std::uint64_t>::max() / it->second) {
+        throw std::invalid_argument("data size is too large - " + encoded);
+    }
+
     return base * it->second;
 }
 
-- 
2.43.0


From e3a1c72bf8601e5f5a65850edd4c04fa05f1aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 13/47] fix: print exactly the viewed characters in formatters,
 not C strings

---
 src/formatter/json.cpp   | 24 ++++++++++++++++--------
 src/formatter/string.cpp | 10 +++++-----
 src/formatter/tskv.cpp   |  3 ++-
 src/util/ref.hpp         | 18 ++++++++++++++++++
 4 files changed, 41 insertions(+), 14 deletions(-)
 create mode 100644 src/util/ref.hpp

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..0d41a7f 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -25,6 +25,7 @@
 #include "../datetime.hpp"
 #include "../memory.hpp"
 #include "../util/deleter.hpp"
+#include "../util/ref.hpp"
 #include "json.hpp"
 
 namespace blackhole {
@@ -32,6 +33,14 @@ inline namespace v1 {
 namespace formatter {
 namespace {
 
+/// Makes a RapidJSON reference to the viewed characters, which can't be null even if there are no
+/// characters.
+auto stringref(const string_view& view) -> rapidjson::Value::StringRefType {
+    return view.size() == 0 ?
+        rapidjson::StringRef("", 0) :
+        rapidjson::StringRef(view.data(), view.size());
+}
+
 struct visitor_t {
     typedef void result_type;
 
@@ -41,7 +50,7 @@ struct visitor_t {
     const string_view& name;
 
     auto operator()(std::nullptr_t) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        node.AddMember(stringref(name), rapidjson::kNullType, allocator);
     }
 
     // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
@@ -52,17 +61,16 @@ struct visitor_t {
             std::is_same<T, std::int64_t>::value ||
             std::is_same<T, std::uint64_t>::value ||
             std::is_same<T, double>::value, "type mismatch");
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        node.AddMember(stringref(name), value, allocator);
     }
 
     auto operator()(const string_view& value) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+        node.AddMember(stringref(name), stringref(value), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
     auto operator()(const char* data, std::size_t size) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(stringref(name),
             rapidjson::Value(data, static_cast<unsigned int>(size), allocator), allocator);
     }
 
@@ -70,7 +78,7 @@ struct visitor_t {
         writer_t wr;
         value(wr);
 
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(stringref(name),
             wr.result().to_string(), allocator);
     }
 };
@@ -96,7 +104,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
@@ -319,7 +327,7 @@ private:
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
             writer_t wr;
-            wr.write(it->second, fmt::StringRef(data, size));
+            wr.write(it->second, ref({data, size}));
             visitor(wr.inner.data(), wr.inner.size());
         } else {
             visitor(data, size);
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..fb254d7 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -19,6 +19,7 @@
 #include "../memory.hpp"
 #include "../procname.hpp"
 #include "../util/deleter.hpp"
+#include "../util/ref.hpp"
 #include "../util/time.hpp"
 #include "string/parser.hpp"
 #include "string/token.hpp"
@@ -82,7 +83,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
@@ -122,7 +123,7 @@ public:
 
     auto operator()(const ph::attribute<name>& value) -> void {
         // TODO: Surround with braces depending on a spec type.
-        wr.write(value.format, string_ref(attribute.first.data(), attribute.first.size()));
+        wr.write(value.format, ref(attribute.first));
     }
 
     auto operator()(const ph::attribute<value>& value) -> void {
@@ -181,8 +182,7 @@ public:
     }
 
     auto operator()(const ph::message_t& token) const -> void {
-        const auto& value = record.formatted();
-        writer.write(token.spec, string_ref(value.data(), value.size()));
+        writer.write(token.spec, ref(record.formatted()));
     }
 
     auto operator()(const ph::process<id>& token) const -> void {
@@ -249,7 +249,7 @@ public:
 
         fmt::MemoryWriter buffer;
         token.generator(buffer, tm, static_cast<std::uint64_t>(usec));
-        writer.write(token.spec, string_ref(buffer.data(), buffer.size()));
+        writer.write(token.spec, ref({buffer.data(), buffer.size()}));
     }
 
     auto operator()(const ph::generic<required>& token) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..987ef12 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -16,6 +16,7 @@
 #include "../datetime.hpp"
 #include "../memory.hpp"
 #include "../util/deleter.hpp"
+#include "../util/ref.hpp"
 #include "string/token.hpp"
 
 namespace blackhole {
@@ -44,7 +45,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/util/ref.hpp b/src/util/ref.hpp
new file mode 100644
index 0000000..19a0b6f
--- /dev/null
+++ b/src/util/ref.hpp
@@ -0,0 +1,18 @@
+#pragma once
+
+#include "blackhole/extensions/format.hpp"
+#include "blackhole/stdext/string_view.hpp"
+
+namespace blackhole {
+inline namespace v1 {
+
+/// Makes a cppformat reference to exactly the viewed characters.
+///
+/// There is special treatment of empty views, because cppformat considers references of zero size
+/// as C strings.
+inline auto ref(const stdext::string_view& view) -> fmt::StringRef {
+    return view.size() == 0 ? fmt::StringRef("", 0) : fmt::StringRef(view.data(), view.size());
+}
+
+}  // namespace v1
+}  // namespace blackhole
-- 
2.43.0


From deb9cd7f1e009303a1c07be33798615f2be1dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 14/47] fix: write non-finite numbers as null in JSON formatter

---
 src/formatter/json.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 0d41a7f..797a96c 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/json.hpp"
 
 #include <array>
+#include <cmath>
 #include <set>
 #include <unordered_map>
 
@@ -53,14 +54,22 @@ struct visitor_t {
         node.AddMember(stringref(name), rapidjson::kNullType, allocator);
     }
 
-    // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
+    // There is no representation for infinities and NaN in JSON.
+    auto operator()(double value) -> void {
+        if (std::isfinite(value)) {
+            node.AddMember(stringref(name), value, allocator);
+        } else {
+            operator()(nullptr);
+        }
+    }
+
+    // For `bool`, `std::int64_t` and `std::uint64_t` types.
     template<typename T>
     auto operator()(T value) -> void {
         static_assert(
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
-            std::is_same<T, std::uint64_t>::value ||
-            std::is_same<T, double>::value, "type mismatch");
+            std::is_same<T, std::uint64_t>::value, "type mismatch");
         node.AddMember(stringref(name), value, allocator);
     }
 
-- 
2.43.0


From b16b53126b93d4cd78cdc44049059b0e923a18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 15/47] fix: keep attributes named like a part of a route in
 JSON formatter

---
 src/formatter/json.cpp | 43 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 797a96c..5508ed3 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -202,11 +202,46 @@ public:
         // containers.
         const auto it = routing.find(name.to_string());
 
-        if (it == routing.end()) {
-            return rest.GetWithDefault(root, rapidjson::kObjectType);
-        } else {
-            return it->second.GetWithDefault(root, rapidjson::kObjectType);
+        return locate(it == routing.end() ? rest : it->second, root);
+    }
+
+    /// Finds or creates an object located by the given pointer.
+    ///
+    /// Unlike `GetWithDefault` does never replace members added as attributes: when such a member
+    /// shares its name with a part of the route they both stay in the tree.
+    template<typename Document>
+    static auto locate(const rapidjson::Pointer& pointer, Document& root) -> rapidjson::Value& {
+        auto& allocator = root.GetAllocator();
+        const auto tokens = pointer.GetTokens();
+        const auto size = pointer.GetTokenCount();
+
+        rapidjson::Value* node = &root;
+        for (std::size_t id = 0; id < size; ++id) {
+            if (!node->IsObject()) {
+                return rapidjson::Pointer(tokens + id, size - id)
+                    .GetWithDefault(*node, rapidjson::kObjectType, allocator);
+            }
+
+            const rapidjson::Value name(tokens[id].name, tokens[id].length);
+            auto it = node->MemberBegin();
+            while (it != node->MemberEnd() && !(it->name == name && (it->value.IsObject() || it->value.IsArray()))) {
+                ++it;
+            }
+
+            if (it == node->MemberEnd()) {
+                const auto array = id + 1 < size && tokens[id + 1].index != rapidjson::kPointerInvalidIndex;
+                node->AddMember(
+                    rapidjson::Value(tokens[id].name, tokens[id].length, allocator),
+                    rapidjson::Value(array ? rapidjson::kArrayType : rapidjson::kObjectType),
+                    allocator
+                );
+                it = node->MemberEnd() - 1;
+            }
+
+            node = &it->value;
         }
+
+        return *node;
     }
 
     template<typename Document>
-- 
2.43.0


From f97aadc0a9a6d3d252b74af41de5c2e965d7ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 16/47] fix: refuse routes that aren't valid JSON pointers in
 JSON formatter

---
 src/formatter/json.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 5508ed3..5dcd461 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -181,7 +181,7 @@ public:
     std::vector<std::string> severity;
 
     inner_t(json_t::properties_t properties) :
-        rest(properties.routing.unspecified),
+        rest(pointer(properties.routing.unspecified)),
         mapping(std::move(properties.mapping)),
         formatting(std::move(properties.formatting)),
         unique(properties.unique),
@@ -191,11 +191,21 @@ public:
     {
         for (const auto& route : properties.routing.specified) {
             for (const auto& name : route.second) {
-                routing.insert({name, rapidjson::Pointer(route.first)});
+                routing.insert({name, pointer(route.first)});
             }
         }
     }
 
+    static auto pointer(const std::string& route) -> rapidjson::Pointer {
+        rapidjson::Pointer result(route);
+
+        if (!result.IsValid()) {
+            throw std::invalid_argument("route \"" + route + "\" is not a valid JSON pointer");
+        }
+
+        return result;
+    }
+
     template<typename Document>
     auto get(const string_view& name, Document& root) -> rapidjson::Value& {
         // TODO: Here we can avoid a temporary string construction by using multi indexed
-- 
2.43.0


From 3bd37c45a0d8ee85d2edc95c9fc38ff2bc05c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 17/47] fix: escape values of constants in TSKV formatter

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 987ef12..f099668 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -121,7 +121,7 @@ public:
 
     auto add_constants() -> void {
         for (const auto& kv : data.attributes) {
-            add(kv.first, kv.second);
+            add(kv.first, string_view(kv.second));
         }
     }
 
-- 
2.43.0


From 5a1b9c8a6d01980a3dba2436c5dc4d5a8e66799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:04 +0000
Subject: [PATCH 18/47] fix: rename and remove thread id in TSKV formatter as
 any other field

---
 src/formatter/tskv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index f099668..21d7b16 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -96,13 +96,15 @@ public:
     }
 
     auto add_tid() -> void {
-        wr.write("\ttid={:#x}",
+        writer_t wr;
+        wr.write("{:#x}",
 #ifdef __linux__
             record.tid()
 #elif __APPLE__
             reinterpret_cast<unsigned long>(record.tid())
 #endif
         );
+        add("tid", wr.result());
     }
 
     auto add_message() -> void {
-- 
2.43.0


From b5df12218b8955e0f9b9cecfbecdd79d5d18fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 19/47] fix: escape control characters and backslashes in keys
 of TSKV formatter

---
 src/formatter/tskv.cpp | 74 ++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 21d7b16..8e27b46 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -187,49 +187,53 @@ private:
                 wr.inner << "\\=";
                 break;
             default:
-                wr.inner << *it;
+                write_escaped(*it);
             };
         }
     }
 
     auto write_escaped_val(string_view value) -> void {
         for (auto it = value.data(); it != value.data() + value.size(); ++it) {
-            switch (*it) {
-            case '\a':
-                wr.inner << "\\a";
-                break;
-            case '\b':
-                wr.inner << "\\b";
-                break;
-            case '\t':
-                wr.inner << "\\t";
-                break;
-            case '\n':
-                wr.inner << "\\n";
-                break;
-            case '\v':
-                wr.inner << "\\v";
-                break;
-            case '\f':
-                wr.inner << "\\f";
-                break;
-            case '\r':
-                wr.inner << "\\r";
-                break;
-            case '\x1B':
-                wr.inner << "\\e";
-                break;
-            case '\0':
-                wr.inner << "\\0";
-                break;
-            case '\\':
-                wr.inner << "\\\\";
-                break;
-            default:
-                wr.inner << *it;
-            };
+            write_escaped(*it);
         }
     }
+
+    auto write_escaped(char ch) -> void {
+        switch (ch) {
+        case '\a':
+            wr.inner << "\\a";
+            break;
+        case '\b':
+            wr.inner << "\\b";
+            break;
+        case '\t':
+            wr.inner << "\\t";
+            break;
+        case '\n':
+            wr.inner << "\\n";
+            break;
+        case '\v':
+            wr.inner << "\\v";
+            break;
+        case '\f':
+            wr.inner << "\\f";
+            break;
+        case '\r':
+            wr.inner << "\\r";
+            break;
+        case '\x1B':
+            wr.inner << "\\e";
+            break;
+        case '\0':
+            wr.inner << "\\0";
+            break;
+        case '\\':
+            wr.inner << "\\\\";
+            break;
+        default:
+            wr.inner << ch;
+        };
+    }
 };
 
 class tskv_t : public formatter_t {
-- 
2.43.0


From fa2e7252e32de31724e4df7b40872a60a91a0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 20/47] fix: print severities below zero as they are with a
 severity mapping

---
 src/formatter/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index fb254d7..85a1243 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -385,9 +385,9 @@ auto factory<string_t>::from(const config::node_t& config) const -> std::unique_
             sevmap.emplace_back(config.to_string());
         });
 
-        auto fn = [=](std::size_t severity, const std::string& spec, writer_t& writer) {
-            if (severity < sevmap.size()) {
-                writer.write(spec, sevmap[severity]);
+        auto fn = [=](int severity, const std::string& spec, writer_t& writer) {
+            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
+                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
             } else {
                 writer.write(spec, severity);
             }
-- 
2.43.0


From 5e63425c3f7e24a952783d45449e1db7f234e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 21/47] fix: refuse unclosed placeholders in string formatter's
 patterns

---
 src/formatter/string/parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index 9985a29..4335ce1 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -167,6 +167,11 @@ parser_t::next() -> boost::optional<token_t> {
     }
 
     if (pos == std::end(pattern)) {
+        if (state == state_t::placeholder) {
+            // Unclosed single "{".
+            throw_<illformed_t>();
+        }
+
         return boost::none;
     }
 
@@ -208,7 +213,8 @@ parser_t::parse_spec() -> std::string {
         ++pos;
     }
 
-    return spec;
+    // Unclosed placeholder.
+    throw_<illformed_t>();
 }
 
 auto
-- 
2.43.0


From c4bf3bd7b48fe8196aec68c4d2b3a0eb4cffb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 22/47] fix: accept separators before patterns in leftover
 placeholders

---
 src/formatter/string/grammar.cpp     | 13 +++++++++++--
 src/formatter/string/grammar.inl.hpp |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string/grammar.cpp b/src/formatter/string/grammar.cpp
index e5ff7da..2e3c5d0 100644
--- a/src/formatter/string/grammar.cpp
+++ b/src/formatter/string/grammar.cpp
@@ -45,6 +45,8 @@ struct grammar_t : public boost::spirit::qi::grammar<std::string::iterator, gram
     boost::spirit::qi::rule<iterator_type, grammar_result_t()> grammar;
     boost::spirit::qi::rule<iterator_type, std::string()> pattern;
     boost::spirit::qi::rule<iterator_type, std::string()> separator;
+    boost::spirit::qi::rule<iterator_type, char()> lbrace;
+    boost::spirit::qi::rule<iterator_type, char()> rbrace;
     boost::spirit::qi::rule<iterator_type, std::string()> spec;
     boost::spirit::qi::rule<iterator_type, char()> align;
     boost::spirit::qi::rule<iterator_type, std::string()> width;
@@ -123,10 +125,17 @@ grammar_t::grammar_t() :
     // more information about the spec subset grammar.
     grammar    %= qi::eps > qi::lit('{') > (
           '}'
-        | ':' >> -(pattern ^ separator) >> spec >> '}'
+        | ':' >> -(separator ^ pattern) >> spec >> '}'
     ) > qi::eoi;
     pattern    %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":p}") >> !qi::lit('}'))) >> ":p}") % '}';
-    separator  %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":s}") >> !qi::lit('}'))) >> ":s}") % '}';
+    // Unlike patterns separators have no placeholders inside, so there are no single braces.
+    separator  %= qi::lit('{') >> *(
+          lbrace
+        | rbrace
+        | (qi::char_ - '{' - '}' - (qi::lit(":s}") >> !qi::lit('}')))
+    ) >> ":s}";
+    lbrace      = qi::lit('{') >> qi::char_('{');
+    rbrace      = qi::lit('}') >> qi::char_('}');
     spec       %= -align >> -width >> type;
     align      %= qi::char_("<^>");
     width      %= +qi::digit;
diff --git a/src/formatter/string/grammar.inl.hpp b/src/formatter/string/grammar.inl.hpp
index ffda577..d0a6be1 100644
--- a/src/formatter/string/grammar.inl.hpp
+++ b/src/formatter/string/grammar.inl.hpp
@@ -65,8 +65,8 @@ BOOST_FUSION_ADAPT_STRUCT(blackhole::formatter::string::optional_result_t,
 )
 
 BOOST_FUSION_ADAPT_STRUCT(blackhole::formatter::string::grammar_result_t::extension_t,
-    (boost::optional<std::string>, pattern)
     (boost::optional<std::string>, separator)
+    (boost::optional<std::string>, pattern)
 )
 
 BOOST_FUSION_ADAPT_STRUCT(blackhole::formatter::string::grammar_result_t,
-- 
2.43.0


From a1ec6dced5bf71ea75c1bed94ca57aad4ead68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 23/47] fix: set timezone fields while breaking UTC time down

---
 src/util/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..3756160 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = "GMT";
 
     return tp;
 }
-- 
2.43.0


From aab17fd629fb63956d2a8be0637d50ef5febd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 24/47] fix: respect daylight saving time and the sign of the
 offset in local timestamps

---
 src/util/time.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index 3756160..d0e838f 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -85,12 +85,7 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    return localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From 607e4940530017f83becc89a7939bacb84dc39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 25/47] fix: print the same epoch for UTC and local timestamps

---
 src/datetime/generator.linux.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..52bba60 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -31,7 +31,9 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // Neither depends on the local timezone nor on whether the given time is a local one.
+        std::tm copy = tm;
+        stream.write("{}", ::timegm(&copy) - tm.tm_gmtoff);
     }
 
     auto operator()(usecond_t) -> void {
-- 
2.43.0


From 83864429f2150839a8a48819983fa4707a692004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 26/47] fix: don't take an escaped percent sign for a timestamp
 specifier

---
 src/datetime/generator.linux.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 52bba60..e22750d 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -60,6 +60,11 @@ generator_t::generator_t(std::string pattern) {
             literal.clear();
             ++pos;
             ++pos;
+        } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%%")) {
+            // An escaped percent sign, should not be confused with the beginning of a specifier.
+            literal.append("%%");
+            ++pos;
+            ++pos;
         } else {
             literal.push_back(*pos);
             ++pos;
-- 
2.43.0


From 65fae60ce0171cd6cd0e0b756f0d7dfef3d94621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 27/47] fix: print timestamps longer than a kilobyte

---
 src/datetime/generator.linux.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index e22750d..8eb1e31 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -2,6 +2,8 @@
 
 #include "generator.linux.hpp"
 
+#include <vector>
+
 #include <boost/algorithm/string.hpp>
 #include <boost/variant/apply_visitor.hpp>
 #include <boost/variant/variant.hpp>
@@ -26,8 +28,22 @@ struct visitor_t : public boost::static_visitor<> {
     {}
 
     auto operator()(const literal_t& value) -> void {
-        std::size_t ret = std::strftime(buffer, sizeof(buffer), value.value.c_str(), &tm);
-        stream << fmt::StringRef(buffer, ret);
+        // Zero means either an empty result or a lack of space, the extra space differs them.
+        const auto pattern = value.value + " ";
+
+        std::size_t ret = std::strftime(buffer, sizeof(buffer), pattern.c_str(), &tm);
+        if (ret > 0) {
+            stream << fmt::StringRef(buffer, ret - 1);
+            return;
+        }
+
+        std::vector<char> large(sizeof(buffer));
+        while (ret == 0) {
+            large.resize(2 * large.size());
+            ret = std::strftime(large.data(), large.size(), pattern.c_str(), &tm);
+        }
+
+        stream << fmt::StringRef(large.data(), ret - 1);
     }
 
     auto operator()(epoch_t) -> void {
-- 
2.43.0


From bf8ffde2462c0e742dff597e8cefd683b9abb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 28/47] fix: use format patterns only up to their length in the
 facade

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..36b866f 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..533dfe1 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <functional>
+#include <string>
 
 #include "blackhole/attributes.hpp"
 #include "blackhole/stdext/string_view.hpp"
@@ -17,8 +18,9 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    // The view isn't necessarily null-terminated.
+    wr.write(std::string(pattern.data(), pattern.size()), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +89,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
-- 
2.43.0


From 7fd557b3defd9e620554314d0d00b69c40376e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 29/47] fix: print each failure report of the logger as a
 single line

---
 src/root.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 6187cbb..7fea2e7 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -3,6 +3,7 @@
 #include <atomic>
 #include <iostream>
 #include <mutex>
+#include <string>
 
 #include <boost/thread/tss.hpp>
 
@@ -36,6 +37,12 @@ public:
     }
 };
 
+/// Reports about the failure using a single write to prevent mixing with other threads' output.
+auto report(const std::string& reason) -> void {
+    const auto message = "logging core error occurred: " + reason + '\n';
+    std::cout.write(message.data(), static_cast<std::streamsize>(message.size())).flush();
+}
+
 }  // namespace
 
 struct root_logger_t::sync_t {
@@ -191,9 +198,9 @@ auto root_logger_t::consume(severity_t severity, const string_view& pattern, att
             try {
                 handler->handle(record);
             } catch (const std::exception& err) {
-                std::cout << "logging core error occurred: " << err.what() << std::endl;
+                report(err.what());
             } catch (...) {
-                std::cout << "logging core error occurred: unknown" << std::endl;
+                report("unknown");
             }
         }
     }
-- 
2.43.0


From fab550b10c486144b022aa21168eedad253e01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 30/47] fix: keep NUL characters in strings and keys of JSON
 configurations

---
 src/config/json.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 2d8904c..8d59d4a 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -134,7 +134,7 @@ public:
 
     auto to_string() const -> std::string {
         if (is_string()) {
-            return value.GetString();
+            return {value.GetString(), value.GetStringLength()};
         }
 
         type_mismatch("string");
@@ -156,7 +156,8 @@ public:
         }
 
         for (auto it = value.MemberBegin(); it != value.MemberEnd(); ++it) {
-            fn(it->name.GetString(), json_t(it->value, advance(it->name.GetString())));
+            const std::string name(it->name.GetString(), it->name.GetStringLength());
+            fn(name, json_t(it->value, advance(name)));
         }
     }
 
@@ -169,8 +170,14 @@ public:
     }
 
     auto operator[](const std::string& key) const -> option_t {
-        if (value.IsObject() && value.HasMember(key.c_str())) {
-            return make_option<json_t>(value[key.c_str()], advance(key));
+        if (value.IsObject()) {
+            const rapidjson::Value name(rapidjson::StringRef(key.data(),
+                static_cast<rapidjson::SizeType>(key.size())));
+
+            const auto it = value.FindMember(name);
+            if (it != value.MemberEnd()) {
+                return make_option<json_t>(it->value, advance(key));
+            }
         }
 
         return {};
-- 
2.43.0


From 8dadf19d369408c3193beaeb0e8308b54dd66f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 31/47] fix: refuse string formatter configurations without a
 pattern

---
 src/formatter/string.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 85a1243..229881a 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -19,6 +19,7 @@
 #include "../memory.hpp"
 #include "../procname.hpp"
 #include "../util/deleter.hpp"
+#include "../util/optional.hpp"
 #include "../util/ref.hpp"
 #include "../util/time.hpp"
 #include "string/parser.hpp"
@@ -343,6 +344,8 @@ public:
 using formatter::severity_map;
 using formatter::string_t;
 
+using util::value_or;
+
 class builder<string_t>::inner_t {
 public:
     std::string pattern;
@@ -377,7 +380,9 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    auto pattern = value_or(config["pattern"].to_string(), []() -> std::string {
+        throw std::invalid_argument(R"(parameter "pattern" is required)");
+    });
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
-- 
2.43.0


From 9b4375dd94e3d7d9b5e1481923fa32f23da919a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 32/47] fix: use default factor and overflow policy in
 asynchronous sink configurations

---
 src/sink/asynchronous.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index 9883ae2..c8517fd 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -71,8 +71,10 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    // The same defaults as the builder has.
+    auto factor = config["factor"].to_uint64().get_value_or(10);
+    auto overflow = sink::overflow_policy_factory_t()
+        .create(config["overflow"].to_string().get_value_or("wait"));
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
-- 
2.43.0


From 8c4fca5b5fffd4b4e8489cbe55f50ad84d7c8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 33/47] fix: refuse socket sink configurations with ports that
 don't fit

---
 src/sink/socket/tcp.cpp | 5 +++++
 src/sink/socket/udp.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..31dd48c 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <mutex>
 
 #include <boost/asio/write.hpp>
@@ -154,6 +155,10 @@ auto factory<tcp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<tcp_t>(host, static_cast<std::uint16_t>(port));
 }
 
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index f819b48..97bf278 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
@@ -55,6 +57,10 @@ auto factory<udp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<udp_t>(host, static_cast<std::uint16_t>(port));
 }
 
-- 
2.43.0


From fe98fecbcf287d68599bc2d16e264f25cf5a390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 34/47] fix: don't overflow the stack while reading deeply
 nested JSON configurations

---
 src/config/json.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config/json.cpp b/src/config/json.cpp
index ac7dee5..abd0e7e 100644
--- a/src/config/json.cpp
+++ b/src/config/json.cpp
@@ -38,7 +38,12 @@ auto factory<json_t>::config() const noexcept -> const node_t& {
 
 auto factory<json_t>::initialize(std::istream& stream) -> void {
     rapidjson::IStreamWrapper wrapper(stream);
-    doc.ParseStream<rapidjson::kParseCommentsFlag | rapidjson::kParseTrailingCommasFlag>(wrapper);
+    // Parsing iteratively prevents from running out of stack when nesting is too deep.
+    doc.ParseStream<
+        rapidjson::kParseCommentsFlag |
+        rapidjson::kParseTrailingCommasFlag |
+        rapidjson::kParseIterativeFlag
+    >(wrapper);
 
     if (doc.HasParseError()) {
         throw std::invalid_argument("parse error at offset " +
-- 
2.43.0


From 3d17ab173efd3e2de53a077520280f1d92e68f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 35/47] fix: accept optional placeholders with a default value,
 but without a spec

---
 src/formatter/string/grammar.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string/grammar.cpp b/src/formatter/string/grammar.cpp
index 2e3c5d0..52c5fb7 100644
--- a/src/formatter/string/grammar.cpp
+++ b/src/formatter/string/grammar.cpp
@@ -61,6 +61,7 @@ struct optional_grammar_t : public boost::spirit::qi::grammar<std::string::itera
 
     boost::spirit::qi::rule<iterator_type, optional_result_t()> grammar;
     boost::spirit::qi::rule<iterator_type, std::string()> otherwise;
+    boost::spirit::qi::rule<iterator_type> last;
     boost::spirit::qi::rule<iterator_type, std::string()> spec;
     boost::spirit::qi::rule<iterator_type, char()> fill;
     boost::spirit::qi::rule<iterator_type, char()> align;
@@ -80,7 +81,9 @@ optional_grammar_t::optional_grammar_t() :
           '}'
         | ':' >> otherwise >> spec >> '}'
     ) > qi::eoi;
-    otherwise %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":default}") >> !qi::lit('}'))) >> ":default}") % '}';
+    otherwise %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":default}") >> last)) >> ":default}") % '}';
+    // Either followed by a spec or, if there is no one, by the closing brace of the placeholder.
+    last  %= !qi::lit('}') | (qi::lit('}') >> qi::eoi);
     spec  %= -fill >> -align >> -alt >> -zero >> -width >> -precision >> -type;
     fill  %= qi::char_ >> &align;
     align %= qi::char_("<^>");
-- 
2.43.0


From 30af9e5bd19a183fae3a304172814acc9c9b4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 36/47] fix: define inequality of attribute views, which was
 only declared

---
 src/attribute.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute.cpp b/src/attribute.cpp
index 4e17d41..56207b3 100644
--- a/src/attribute.cpp
+++ b/src/attribute.cpp
@@ -253,6 +253,10 @@ auto view_t::operator==(const view_t& other) const -> bool {
     return inner().value == other.inner().value;
 }
 
+auto view_t::operator!=(const view_t& other) const -> bool {
+    return !(*this == other);
+}
+
 auto view_t::apply(visitor_t& visitor) const -> void {
     boost::apply_visitor(from<view_t>{visitor}, inner().value);
 }
-- 
2.43.0


From 7cb4c4763e4fbd4dd5611062c1f52da547e6fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 37/47] fix: let compile-time format patterns contain escaped
 braces

---
 include/blackhole/extensions/metaformat.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/blackhole/extensions/metaformat.hpp b/include/blackhole/extensions/metaformat.hpp
index 1059aa7..a9fa1a8 100644
--- a/include/blackhole/extensions/metaformat.hpp
+++ b/include/blackhole/extensions/metaformat.hpp
@@ -196,6 +196,17 @@ public:
         }
     }
 
+    /// Formats the rest of the pattern, when there are no more arguments left.
+    void
+    format(fmt::MemoryWriter& writer) const {
+        if (literal.placeholder_next) {
+            throw fmt::FormatError("argument index out of range");
+        }
+
+        writer << fmt::StringRef(literal.data.data(), literal.data.size());
+        next.format(writer);
+    }
+
     template<class Stream>
     Stream&
     repr(Stream& stream) const {
-- 
2.43.0


From d90eb31aa80de7cff25242446ded6fb97a5d6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 38/47] fix: print booleans and characters through compile-time
 format patterns as through run-time ones

---
 include/blackhole/extensions/metaformat.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/blackhole/extensions/metaformat.hpp b/include/blackhole/extensions/metaformat.hpp
index a9fa1a8..15ceee4 100644
--- a/include/blackhole/extensions/metaformat.hpp
+++ b/include/blackhole/extensions/metaformat.hpp
@@ -168,6 +168,22 @@ struct format_traits {
     }
 };
 
+// Otherwise these are promoted to integers, while run-time patterns print words and characters.
+template<>
+struct format_traits<bool> {
+    static inline
+    void
+    format(fmt::MemoryWriter& writer, bool val) {
+        writer << (val ? "true" : "false");
+    }
+};
+
+template<>
+struct format_traits<signed char> : format_traits<char> {};
+
+template<>
+struct format_traits<unsigned char> : format_traits<char> {};
+
 // TODO: Store placeholder number information too.
 template<std::size_t N>
 struct formatter {
-- 
2.43.0


From acb0b69bf7e936de2e4b868228c6f1fc689abb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 39/47] fix: print escape sequences regardless of the flags of
 the stream

---
 src/termcolor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/termcolor.cpp b/src/termcolor.cpp
index 0ccb0e3..b78a7bd 100644
--- a/src/termcolor.cpp
+++ b/src/termcolor.cpp
@@ -1,4 +1,5 @@
 #include <ostream>
+#include <string>
 
 #include "blackhole/termcolor.hpp"
 
@@ -79,7 +80,9 @@ auto termcolor_t::colored() const noexcept -> bool {
 }
 
 auto operator<<(std::ostream& stream, const termcolor_t& color) -> std::ostream& {
-    return stream << "\033[" << color.code << "m";
+    // The sequence must not depend on how the stream is told to print numbers and strings.
+    const auto sequence = "\033[" + std::to_string(color.code) + "m";
+    return stream.write(sequence.data(), static_cast<std::streamsize>(sequence.size()));
 }
 
 }  // namespace v1
-- 
2.43.0


From ecade3d479cc479f42c793b3acfa3b49ea3ec2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 40/47] fix: never throw while the stack is being unwound when
 resetting colors

---
 src/termcolor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/termcolor.cpp b/src/termcolor.cpp
index b78a7bd..d5826b8 100644
--- a/src/termcolor.cpp
+++ b/src/termcolor.cpp
@@ -1,3 +1,4 @@
+#include <exception>
 #include <ostream>
 #include <string>
 
@@ -18,7 +19,14 @@ public:
     }
 
     ~scope_t() noexcept(false) {
-        stream << termcolor_t::reset();
+        try {
+            stream << termcolor_t::reset();
+        } catch (...) {
+            // Throwing one more exception while the stack is being unwound is fatal.
+            if (!std::uncaught_exception()) {
+                throw;
+            }
+        }
     }
 };
 
-- 
2.43.0


From a41e09113bbc0cafe44e791d4f1c9db673d15fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 41/47] fix: do not close the system log right after having
 configured a syslog sink

---
 src/sink/syslog.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6bd4941..f1b55b0 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -67,7 +67,7 @@ auto factory<sink::syslog_t>::type() const noexcept -> const char* {
 
 auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::unique_ptr<sink_t> {
     (void)registry;
-    sink::syslog_t syslog;
+    std::unique_ptr<sink::syslog_t> syslog(new sink::syslog_t);
 
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
@@ -75,10 +75,10 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
             priorities.emplace_back(config.to_sint64());
         });
 
-        syslog.priorities(std::move(priorities));
+        syslog->priorities(std::move(priorities));
     }
 
-    return std::unique_ptr<sink_t>(new sink::syslog_t(std::move(syslog)));
+    return std::move(syslog);
 }
 
 }  // namespace v1
-- 
2.43.0


From 8e9b36f211c36813ec692bbf45c044e6ca6063e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 42/47] fix: keep the system log opened while there are syslog
 sinks alive

---
 src/sink/syslog.cpp | 46 +++++++++++++++++++++++++++++++++++++++++++--
 src/sink/syslog.hpp |  4 ++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index f1b55b0..3808735 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -2,6 +2,9 @@
 
 #include <syslog.h>
 
+#include <algorithm>
+#include <mutex>
+
 #include "blackhole/config/node.hpp"
 #include "blackhole/config/option.hpp"
 #include "blackhole/stdext/string_view.hpp"
@@ -14,16 +17,55 @@ namespace blackhole {
 inline namespace v1 {
 namespace sink {
 
+namespace {
+
+// There is a single log connection per process, which refers to the identity it was opened with.
+// It must stay opened on behalf of a living sink until the last one is destroyed.
+struct connection_t {
+    std::mutex mutex;
+    std::vector<const syslog_t*> sinks;
+};
+
+auto connection() -> connection_t& {
+    // Intentionally leaked, because sinks can be destroyed after statics.
+    static connection_t& self = *new connection_t;
+    return self;
+}
+
+auto open(const syslog_t& sink) -> void {
+    ::openlog(sink.identity().c_str(), sink.option(), sink.facility());
+}
+
+auto attach(const syslog_t& sink) -> void {
+    std::lock_guard<std::mutex> lock(connection().mutex);
+    connection().sinks.push_back(&sink);
+    open(sink);
+}
+
+auto detach(const syslog_t& sink) -> void {
+    std::lock_guard<std::mutex> lock(connection().mutex);
+    auto& sinks = connection().sinks;
+    sinks.erase(std::remove(sinks.begin(), sinks.end(), &sink), sinks.end());
+
+    if (sinks.empty()) {
+        ::closelog();
+    } else {
+        open(*sinks.back());
+    }
+}
+
+}  // namespace
+
 syslog_t::syslog_t() {
    data.option = LOG_PID;
    data.facility = LOG_USER;
    data.identity = procname().to_string();
 
-   ::openlog(identity().c_str(), option(), facility());
+   attach(*this);
 }
 
 syslog_t::~syslog_t() {
-    ::closelog();
+    detach(*this);
 }
 
 auto syslog_t::option() const noexcept -> int {
diff --git a/src/sink/syslog.hpp b/src/sink/syslog.hpp
index 0484549..be9608b 100644
--- a/src/sink/syslog.hpp
+++ b/src/sink/syslog.hpp
@@ -20,11 +20,11 @@ class syslog_t : public sink_t {
 public:
     syslog_t();
     syslog_t(const syslog_t& other) = delete;
-    syslog_t(syslog_t&& other) = default;
+    syslog_t(syslog_t&& other) = delete;
     ~syslog_t();
 
     auto operator=(const syslog_t& other) -> syslog_t& = delete;
-    auto operator=(syslog_t&& other) -> syslog_t& = default;
+    auto operator=(syslog_t&& other) -> syslog_t& = delete;
 
     auto option() const noexcept -> int;
     auto facility() const noexcept -> int;
-- 
2.43.0


From 32a18895b1d01f49bc983648178d15d521f86e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 43/47] fix: refuse syslog priorities that are out of range

---
 src/sink/syslog.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 3808735..728e5ea 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -3,7 +3,9 @@
 #include <syslog.h>
 
 #include <algorithm>
+#include <limits>
 #include <mutex>
+#include <stdexcept>
 
 #include "blackhole/config/node.hpp"
 #include "blackhole/config/option.hpp"
@@ -114,7 +116,13 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
         mapping.each([&](const config::node_t& config) {
-            priorities.emplace_back(config.to_sint64());
+            const auto priority = config.to_sint64();
+
+            if (priority < std::numeric_limits<int>::min() || priority > std::numeric_limits<int>::max()) {
+                throw std::invalid_argument("priority is out of range");
+            }
+
+            priorities.emplace_back(static_cast<int>(priority));
         });
 
         syslog->priorities(std::move(priorities));
-- 
2.43.0


From c21a6c4669ee878b9585e175dccae0b090a46af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 44/47] fix: building a logger that is not configured is
 refused instead of giving one without handlers

---
 src/registry.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index ac2ac9f..9cd8441 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -1,5 +1,7 @@
 #include "blackhole/registry.hpp"
 
+#include <stdexcept>
+
 #include <boost/optional/optional.hpp>
 
 #include "blackhole/config/factory.hpp"
@@ -65,8 +67,13 @@ auto builder_t::build(const std::string& name) -> root_logger_t {
 
     std::vector<std::unique_ptr<handler_t>> handlers;
 
-    // TODO: Check `config.contains(name)`.
-    config[name].each([&](const config::node_t& config) {
+    const auto root = config[name];
+
+    if (!root) {
+        throw std::out_of_range(fmt::format(R"(logger with name "{}" is not configured)", name));
+    }
+
+    root.each([&](const config::node_t& config) {
         handlers.emplace_back(handler(config));
     });
 
-- 
2.43.0


From 4cb7ec32abb5f1730b56fc57b71adb3b2b96f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 45/47] fix: console sinks with a filter that has no type are
 refused instead of letting everything pass

---
 src/sink/console.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 86a2ec3..b07bb41 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <map>
 #include <mutex>
+#include <stdexcept>
 
 #include <boost/optional/optional.hpp>
 
@@ -179,6 +180,10 @@ auto factory<sink::console_t>::from(const config::node_t& config) const -> std::
         return blackhole::make_unique<sink::console_t>(std::move(filter));
     }
 
+    if (config["filter"]) {
+        throw std::invalid_argument("each filter must have a type");
+    }
+
     return blackhole::make_unique<sink::console_t>();
 }
 
-- 
2.43.0


From f80abe4807071eaacaf3fc11541c923a5f647710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 46/47] fix: file sinks with an unusable flush threshold or a
 rotation without type are refused

---
 src/sink/file.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index ca0703a..d08e7e3 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -232,14 +232,21 @@ auto factory<sink::file_t>::from(const config::node_t& config) const -> std::uni
     builder<sink::file_t> builder(filename.get());
 
     if (auto flush = config["flush"]) {
-        if (flush.unwrap()->is_uint64()) {
+        const auto number = flush.unwrap()->is_uint64();
+        const auto string = flush.unwrap()->is_string();
+
+        if (number) {
             builder.flush_every(flush.unwrap()->to_uint64());
         }
 
-        if (flush.unwrap()->is_string()) {
+        if (string) {
             const auto bytes = sink::file::flusher::parse_dunit(flush.unwrap()->to_string());
             builder.flush_every(bytes_t(bytes));
         }
+
+        if (!number && !string) {
+            throw std::invalid_argument("field 'flush' must be either unsigned integer or string");
+        }
     }
 
     if (auto rotate = config["rotate"]) {
@@ -249,6 +256,8 @@ auto factory<sink::file_t>::from(const config::node_t& config) const -> std::uni
             } else {
                 throw std::invalid_argument("rotate type \"" + *type + "\" is not registered");
             }
+        } else {
+            throw std::invalid_argument("field 'rotate' must have a type");
         }
     }
 
-- 
2.43.0


From 779d3e28aec9a79e17a95c283cf35b505fde94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 47/47] fix: TSKV mutations without strftime pattern are
 refused instead of being ignored

---
 src/formatter/tskv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8e27b46..c220e04 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/tskv.hpp"
 
 #include <set>
+#include <stdexcept>
 
 #include <boost/optional/optional.hpp>
 
@@ -367,7 +368,8 @@ auto factory<tskv_t>::from(const config::node_t& config) const -> std::unique_pt
                 }
 
                 builder.timestamp(key, strftime.to_string().get(), gmtime);
-                return;
+            } else {
+                throw std::invalid_argument("mutation of \"" + key + "\" must have \"strftime\" pattern");
             }
         });
     }
-- 
2.43.0

