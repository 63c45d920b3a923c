From 0a104cfcb75cbc7e0b287e5e0dc23d001d26e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 001/102] fix: base64UrlDecode must reject characters outside
 the alphabet

---
 include/HXLibs/net/protocol/codec/Base64Url.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/HXLibs/net/protocol/codec/Base64Url.hpp b/include/HXLibs/net/protocol/codec/Base64Url.hpp
index eff12a9..a8ad5eb 100644
--- a/include/HXLibs/net/protocol/codec/Base64Url.hpp
+++ b/include/HXLibs/net/protocol/codec/Base64Url.hpp
@@ -108,6 +108,11 @@ inline std::string base64UrlDecode(std::string_view input) {
 
     std::string out(fullBlocks * 3 + (rem ? rem - 1 : 0), '\0');
 
+    for (char c : input) {
+        if (kDecodeTable[static_cast<uint8_t>(c)] == 0xFF) [[unlikely]] {
+            throw std::runtime_error("invalid base64 character");
+        }
+    }
     const uint8_t* inPtr  = reinterpret_cast<const uint8_t*>(input.data());
     uint8_t* outPtr = reinterpret_cast<uint8_t*>(out.data());
 
-- 
2.43.0


From 1e6c7b8f147abc7aef2ab835e9ba950bde7f7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 002/102] fix: strToNum overflowed its power accumulator (UB
 for signed types)

---
 include/HXLibs/utils/NumericBaseConverter.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/utils/NumericBaseConverter.hpp b/include/HXLibs/utils/NumericBaseConverter.hpp
index 3e608ac..b13b005 100644
--- a/include/HXLibs/utils/NumericBaseConverter.hpp
+++ b/include/HXLibs/utils/NumericBaseConverter.hpp
@@ -56,8 +56,8 @@ struct NumericBaseConverter {
     template <typename T, T Base = static_cast<T>(10), typename Str>
     static T strToNum(Str&& sv) noexcept {
         T res{0};
-        T pow{1};
-        for (auto it = sv.rbegin(); it != sv.rend(); ++it) {
+        for (auto it = sv.begin(); it != sv.end(); ++it) {
+            res *= Base;
             if constexpr (Base > 10) {
                 if constexpr (Base > 10 + 26) {
                     // 未定义, 不支持
@@ -74,11 +74,10 @@ struct NumericBaseConverter {
                         arr[static_cast<std::size_t>(c)] = 'A' - 10;
                     return arr;
                 }();
-                res += static_cast<T>(*it - Benchmark[static_cast<std::size_t>(*it)]) * pow;
+                res += static_cast<T>(*it - Benchmark[static_cast<std::size_t>(*it)]);
             } else {
-                res += static_cast<T>(*it - '0') * pow;
+                res += static_cast<T>(*it - '0');
             }
-            pow *= Base;
         }
         return res;
     }
-- 
2.43.0


From 7c91be7c32fd302fc3d59bff53edcc730221f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 003/102] fix: fromJson read past the end of truncated
 documents and accepted some of them

---
 include/HXLibs/reflection/json/JsonRead.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 36cfaeb..ffeca89 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -120,6 +120,10 @@ void skipWhiteSpace(It&& it, It&& end) {
             }
         }
     }
+    // 调用处后面必然还需要字符, 到此结束说明输入被截断
+    if (it == end) [[unlikely]] {
+        throw std::runtime_error{"Unexpected end of input"};
+    }
 }
 
 /**
@@ -298,7 +302,7 @@ struct FromJson {
         while (it != end) {
             if (*it == '"') [[unlikely]] {
                 ++it;
-                break;
+                return;
             }
             if (*it != '\\') {
                 t += *it++; // 下一个字符
@@ -306,6 +310,7 @@ struct FromJson {
                 handleEscapeChar(t, it, end); // 内部会处理好 it
             }
         }
+        [[unlikely]] throw std::runtime_error{"Unterminated string"};
     }
 
     template <meta::SingleElementContainer T, typename It>
@@ -324,7 +329,7 @@ struct FromJson {
         if constexpr (requires (T& t) {
             t.emplace_back();
         }) {
-            while (it != end) {
+            for (;;) {
                 // 把内容移交
                 fromJson(t.emplace_back(), it, end);
                 skipWhiteSpace(it, end);
@@ -354,7 +359,7 @@ struct FromJson {
         }
         // 解析数组 []
         std::size_t idx = 0;
-        while (it != end) {
+        for (;;) {
             if (idx >= t.size()) [[unlikely]] {
                 // 数组没有足够的空间存放数据
                 throw std::runtime_error{"The array doesn't have enough space for data"};
@@ -413,7 +418,7 @@ struct FromJson {
             ++it;
             return;
         }
-        while (it != end) {
+        for (;;) {
             auto& val = insertOrAssign(t, it, end);
             skipWhiteSpace(it, end);
             verify<':'>(it, end);
@@ -449,7 +454,7 @@ struct FromJson {
         if constexpr (N > 0) {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
-            while (it != end) {
+            for (;;) {
                 auto key = findKey(it, end);
                 // 找 ':'
                 skipWhiteSpace(it, end);
-- 
2.43.0


From b551bebfe58830f28e82861c3894bdaa5a02b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 004/102] fix: fromJson kept parsing tuple elements after a
 shorter array ended and ignored surplus ones

---
 include/HXLibs/reflection/json/JsonRead.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index ffeca89..fddcb3b 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -388,9 +388,10 @@ struct FromJson {
         }
         // 解析数组 []
         constexpr auto N = std::tuple_size_v<T>;
+        bool isEnd = false;
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() {
-                if (it == end) {
+                if (isEnd) {
                     return;
                 }
                 // 把内容移交
@@ -398,10 +399,12 @@ struct FromJson {
                 skipWhiteSpace(it, end);
                 if (*it == ']') {
                     ++it;
+                    isEnd = true;
                     return;
                 }
-                if constexpr (I != N -1) {
-                    verify<','>(it, end);
+                verify<','>(it, end);
+                if constexpr (I == N - 1) {
+                    throw std::runtime_error{"The tuple doesn't have enough space for data"};
                 }
             }(), ...);
         }(std::make_index_sequence<N>{});
-- 
2.43.0


From 9f73cf4ae2309dbb8a20ba649f94557ddf16c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 005/102] fix: fromJson decoded UTF-16 surrogate pairs as two
 invalid code points

---
 include/HXLibs/reflection/json/JsonRead.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index fddcb3b..13827a2 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -154,6 +154,20 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
                 throw std::runtime_error(R"(Expected 4 hexadecimal digits)");
             }
             auto code_point = cv::parseUnicodeHex4(it);
+            if (code_point >= 0xD800 && code_point <= 0xDFFF) [[unlikely]] {
+                // UTF-16 代理对: \uD800-\uDBFF 后面必需紧跟 \uDC00-\uDFFF
+                if (code_point >= 0xDC00 || std::distance(it, end) <= 6
+                    || *it != '\\' || *(it + 1) != 'u'
+                ) [[unlikely]] {
+                    throw std::runtime_error(R"(Unpaired Unicode surrogate)");
+                }
+                it += 2;
+                auto low = cv::parseUnicodeHex4(it);
+                if (low < 0xDC00 || low > 0xDFFF) [[unlikely]] {
+                    throw std::runtime_error(R"(Unpaired Unicode surrogate)");
+                }
+                code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+            }
             cv::encodeUtf8(str, code_point); // 内部会移动 it
             return;
         }
-- 
2.43.0


From 5bc5ba90240e068960015f3cf5e3e41676d08a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 006/102] fix: fromJson did not decode escapes in map keys

---
 include/HXLibs/reflection/json/JsonRead.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 13827a2..be5a527 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -243,19 +243,19 @@ std::string_view findKey(It&& it, It&& end) {
     return {left, it++};
 }
 
-template <meta::KeyValueContainer T, typename It>
-auto& insertOrAssign(T& t, It&& it, It&& end) {
+template <meta::KeyValueContainer T>
+auto& insertOrAssign(T& t, std::string key) {
     if constexpr (requires (T& t) {
-        t[findKey(it, end)];
+        t[std::move(key)];
     }) {
-        return t[findKey(it, end)];
+        return t[std::move(key)];
     } else if constexpr (requires (T& t) {
-        t[typename T::key_type {findKey(it, end)}];
+        t[typename T::key_type {std::move(key)}];
     }) {
-        return t[typename T::key_type {findKey(it, end)}];
+        return t[typename T::key_type {std::move(key)}];
     } else {
-        // 不支持由 std::string_view 构造 key
-        static_assert(!sizeof(T), "Constructing keys from std::string_view is not supported");
+        // 不支持由 std::string 构造 key
+        static_assert(!sizeof(T), "Constructing keys from std::string is not supported");
     }
 }
 
@@ -436,7 +436,10 @@ struct FromJson {
             return;
         }
         for (;;) {
-            auto& val = insertOrAssign(t, it, end);
+            // 键也是 json 字符串, 可能含有转义字符
+            std::string key;
+            fromJson(key, it, end);
+            auto& val = insertOrAssign(t, std::move(key));
             skipWhiteSpace(it, end);
             verify<':'>(it, end);
             fromJson(val, it, end);
-- 
2.43.0


From 029eafff6d001e8bd4d72002490451e62007121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 007/102] fix: toJson read past the end of a string ending in a
 truncated UTF-8 sequence

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 29ef305..ae33b31 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -196,6 +196,10 @@ inline void writeStringWithEscape(
     std::advance(end, length);
     while (it < end) {
         if (static_cast<unsigned>(*it) >= 0x80) [[unlikely]] {
+            auto lead = static_cast<unsigned char>(*it);
+            if (end - it < (lead >= 0xF0 ? 4 : lead >= 0xE0 ? 3 : 2)) [[unlikely]] {
+                throw std::runtime_error("illegal unicode character"); // 字符被截断
+            }
             writeUnicodeToString(it, s);
         } else if (escape[static_cast<unsigned char>(*it)]) [[unlikely]] {
             s.push_back('\\');
-- 
2.43.0


From b71f138b2c12d1c5e88d8d7c806f945e64527bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 008/102] fix: toJson wrote char members as a bare character,
 which is not JSON

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index ae33b31..dfc9be1 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -267,7 +267,9 @@ struct ToJson {
     template <typename T, size_t NF = static_cast<size_t>(-1), typename S>
         requires (std::is_integral_v<T> || std::is_floating_point_v<T>)
     static void toJson(T const& t, S& s) {
-        if constexpr (NF != static_cast<size_t>(-1)) {
+        if constexpr (std::is_same_v<T, char>) {
+            s.append(std::format("{}", static_cast<int>(t))); // fromJson 按数字读取 char
+        } else if constexpr (NF != static_cast<size_t>(-1)) {
             s.append(std::format("{:." + std::format("{}", NF) + "f}", t));
         } else {
             s.append(std::format("{}", t));
-- 
2.43.0


From 62f87f34708df6df56078c4792c50b39e7c5aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 009/102] fix: parsing a bool read past an empty text and
 ignored invalid text

---
 include/HXLibs/reflection/deserialization/Numer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/HXLibs/reflection/deserialization/Numer.hpp b/include/HXLibs/reflection/deserialization/Numer.hpp
index 8eb3cc0..2096242 100644
--- a/include/HXLibs/reflection/deserialization/Numer.hpp
+++ b/include/HXLibs/reflection/deserialization/Numer.hpp
@@ -36,6 +36,9 @@ struct Numer {
         requires(std::is_same_v<bool, T>)
     static void fromNumer(T& t, It&& it, It&& end) {
         // 解析布尔
+        if (it == end) [[unlikely]] {
+            throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+        }
         if (*it == '0' || *it == '1') {
             t = *it++ - '0';
         } else {
@@ -66,7 +69,9 @@ struct Numer {
             ) {
                 t = false;
                 it += 5;
+                return;
             }
+            throw std::runtime_error{"There was an error parsing the boolean"};
         }
     }
 
-- 
2.43.0


From 40437682a7dd52af85ee732765814f29ed686ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 010/102] fix: CHashMap::at indexed outside the table for some
 unknown keys

---
 include/HXLibs/container/CHashMap.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/container/CHashMap.hpp b/include/HXLibs/container/CHashMap.hpp
index c22e386..9f0f69a 100644
--- a/include/HXLibs/container/CHashMap.hpp
+++ b/include/HXLibs/container/CHashMap.hpp
@@ -87,18 +87,16 @@ public:
     // 查找与访问
     template <typename K>
     constexpr mapped_type const& at(K const& key) const {
-        auto const& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
 
     template <typename K>
     constexpr mapped_type& at(K const& key) {
-        auto& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
@@ -132,16 +130,6 @@ public:
     static constexpr bool empty() noexcept { return !N; }
     static constexpr size_type size() noexcept { return N; }
     static constexpr size_type max_size() noexcept { return N; }
-private:
-    template <typename K>
-    constexpr value_type const& lookup(K const& key) const noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
-
-    template <typename K>
-    constexpr value_type& lookup(K const& key) noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
 };
 
 /**
-- 
2.43.0


From 119182b43d80d0e1c86cd5012d690dfdbe588b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 011/102] fix: CVector::end pointed one past the end

---
 include/HXLibs/container/CVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/CVector.hpp b/include/HXLibs/container/CVector.hpp
index 0a914a1..e0fec92 100644
--- a/include/HXLibs/container/CVector.hpp
+++ b/include/HXLibs/container/CVector.hpp
@@ -88,8 +88,8 @@ public:
     constexpr iterator begin() { return _data; }
     constexpr const_iterator begin() const { return _data; }
 
-    constexpr iterator end() { return _data + _dIdx + 1; }
-    constexpr const_iterator end() const { return _data + _dIdx + 1; }
+    constexpr iterator end() { return _data + _dIdx; }
+    constexpr const_iterator end() const { return _data + _dIdx; }
 
     // 修改
     constexpr void push_back(value_type const& t) { _data[_dIdx++] = t; }
-- 
2.43.0


From 3c9a851eabd8ea6d5205bfef83891764f5fbc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 012/102] fix: a void task's future became ready before the
 task had run

---
 include/HXLibs/container/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index efd8c50..1383784 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -133,8 +133,8 @@ struct ThreadPool {
         ]() mutable {
             try {
                 if constexpr (std::is_void_v<Res>) {
-                    ans->setData(NonVoidType<>{});
                     moveApply(std::move(func), std::move(argWap));
+                    ans->setData(NonVoidType<>{});
                 } else {
                     ans->setData(moveApply(std::move(func), std::move(argWap)));
                 }
-- 
2.43.0


From 7243fea6822a73287ed7e834bea8a30f5870612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 013/102] fix: ThreadPool lost wake-ups when adding tasks or
 shutting down

---
 include/HXLibs/container/ThreadPool.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 1383784..11c295c 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -142,7 +142,11 @@ struct ThreadPool {
                 ans->unhandledException();
             }
         };
-        _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        {
+            // 必需在锁内入队, 否则会在工作线程 [判断完条件, 还没有挂起] 时丢失唤醒
+            std::lock_guard _{_mtx};
+            _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        }
         _cv.notify_one();
         return res;
     }
@@ -177,7 +181,10 @@ struct ThreadPool {
     ThreadPool& operator=(ThreadPool&&) = delete;
 
     ~ThreadPool() noexcept {
-        _isRun = false;
+        {
+            std::lock_guard _{_mtx};
+            _isRun = false;
+        }
         if (_opThread.joinable()) {
             _opThread.join();
         }
-- 
2.43.0


From 61c848fefa8e47644fc4309d370afd3927e66bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 014/102] fix: destroying a shrinking ThreadPool joined threads
 twice and terminated

---
 include/HXLibs/container/ThreadPool.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 11c295c..63b8dca 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -189,12 +189,10 @@ struct ThreadPool {
             _opThread.join();
         }
         _cv.notify_all();
+        // 待删除队列中的线程也还在 _workers 中, 此处会全部 join
         for (const auto& [_, t] : _workers) {
             t->join();
         }
-        if (!_delIdQueue.empty()) {
-            clearDelIdQueue();
-        }
     }
 private:
     /**
-- 
2.43.0


From 73436e48cb82c6d0edf462c3917c7cd543b7deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 015/102] fix: a ThreadPool shrank below its minimum until no
 worker was left

---
 include/HXLibs/container/ThreadPool.hpp | 41 +++++++++++++++----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 63b8dca..7d1beba 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -206,29 +206,36 @@ private:
             makeWorker(_minThreadNum - _workers.size());
         }
         while (_isRun) [[likely]] {
+            uint32_t workerSize = 0;
+            {
+                // 已经退出的, 和已经要求退出的线程, 不能算作工作线程
+                std::lock_guard _{_mtx};
+                clearDelIdQueue();
+                workerSize = static_cast<uint32_t>(_workers.size()) - _delCnt;
+            }
             auto taskSize = static_cast<uint32_t>(_taskQueue.size());
-            auto runCnt = _runCnt.load();
-            auto workerSize = static_cast<uint32_t>(_workers.size());
-            if (int add = strategy(ThreadPoolData{
-                _minThreadNum,
-                _maxThreadNum,
+            auto runCnt = std::min(_runCnt.load(), workerSize);
+            uint32_t minNum = _minThreadNum, maxNum = _maxThreadNum;
+            int add = strategy(ThreadPoolData{
+                minNum,
+                maxNum,
                 taskSize,
                 workerSize,
                 runCnt,
                 workerSize - runCnt
-            })) {
-                if (add > 0) {
-                    makeWorker(static_cast<std::size_t>(add));
-                } else {
-                    add = -add;
-                    _delCnt = static_cast<uint32_t>(add);
-                    for (int i = 0; i < add; ++i) {
-                        _cv.notify_one();
-                    }
+            });
+            // 线程数必需保持在 [minNum, maxNum] 内
+            if (add > 0 && workerSize < maxNum) {
+                makeWorker(std::min(static_cast<uint32_t>(add), maxNum - workerSize));
+            } else if (add < 0 && workerSize > minNum) {
+                auto del = std::min(static_cast<uint32_t>(-add), workerSize - minNum);
+                {
+                    std::lock_guard _{_mtx};
+                    _delCnt += del;
+                }
+                for (uint32_t i = 0; i < del; ++i) {
+                    _cv.notify_one();
                 }
-            }
-            if (_delIdQueue.size()) {
-                clearDelIdQueue();
             }
             std::this_thread::sleep_for(checkTimer);
         }
-- 
2.43.0


From cf2d310fe407e190fe803a0974a82141bfbff1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 016/102] fix: thenTry dropped the exception of a continuation
 that returned a failed Try

---
 include/HXLibs/container/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 7d1beba..37af936 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -411,7 +411,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            funcRes.get().rethrow();
                         }
                     } else {            
                         // func 返回值是任意类型
@@ -430,7 +430,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            funcRes.get().rethrow();
                         }
                     } else {
                         // func 返回值是任意类型
-- 
2.43.0


From af2901ad2d1b99ae4ca0f4661d692bdd95cf23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 017/102] fix: Uninitialized never destroyed moved-from and
 overwritten objects

---
 include/HXLibs/container/Uninitialized.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/container/Uninitialized.hpp b/include/HXLibs/container/Uninitialized.hpp
index a571a6d..836ba0e 100644
--- a/include/HXLibs/container/Uninitialized.hpp
+++ b/include/HXLibs/container/Uninitialized.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  */
 
+#include <memory>
 #include <utility>
 
 #include <HXLibs/container/NonVoidHelper.hpp>
@@ -34,16 +35,18 @@ struct Uninitialized {
     Uninitialized& operator=(Uninitialized const&) = delete;
     
     Uninitialized(Uninitialized&& that) noexcept 
-        : _available(that._available)
+        : _available{false}
     {
         if (that._available) {
             set(that.move());
         }
     }
     Uninitialized& operator=(Uninitialized&& that) noexcept {
-        del();
-        if (that._available) {
-            set(that.move());
+        if (this != std::addressof(that)) {
+            del();
+            if (that._available) {
+                set(that.move());
+            }
         }
         return *this;
     }
@@ -57,8 +60,9 @@ struct Uninitialized {
     }
 
     T move() noexcept {
-        _available = false;
-        return std::move(_data);
+        T res{std::move(_data)};
+        del(); // 被移走的对象也需要析构
+        return res;
     }
 
     T& get() noexcept {
@@ -71,6 +75,7 @@ struct Uninitialized {
 
     template <typename... Ts>
     void set(Ts&&... args) {
+        del();
         new (std::addressof(_data)) T(std::forward<Ts>(args)...);
         _available = true;
     }
-- 
2.43.0


From ab284313c83a5055634f95fc462eb59e516dcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 018/102] fix: a constructor that throws left the variant
 holding an object that does not exist

---
 include/HXLibs/container/UninitializedNonVoidVariant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/container/UninitializedNonVoidVariant.hpp b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
index 6e7233a..7562a86 100644
--- a/include/HXLibs/container/UninitializedNonVoidVariant.hpp
+++ b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
@@ -211,7 +211,7 @@ struct UninitializedNonVoidVariant {
     template <typename U, std::size_t Idx = meta::findUniqueConstructibleIndex<U, Ts...>(),
               typename T = UninitializedNonVoidVariantIndexToType<Idx, Ts...>>
         requires(Idx < N)
-    constexpr UninitializedNonVoidVariant(U&& t) noexcept(std::is_nothrow_constructible_v<U, T&&>)
+    constexpr UninitializedNonVoidVariant(U&& t) noexcept(std::is_nothrow_constructible_v<T, U&&>)
         : _idx{Idx}
     {
         /*
@@ -333,8 +333,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr NonVT& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<NonVT, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) NonVT(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功才算持有, 否则保持为空
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
@@ -343,15 +343,15 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) T(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功才算持有, 否则保持为空
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
     template <typename U, std::size_t Idx = meta::findUniqueConstructibleIndex<U, Ts...>(),
               typename T = UninitializedNonVoidVariantIndexToType<Idx, Ts...>>
         requires(Idx < N)
-    constexpr UninitializedNonVoidVariant& operator=(U&& t) noexcept {
+    constexpr UninitializedNonVoidVariant& operator=(U&& t) noexcept(std::is_nothrow_constructible_v<T, U&&>) {
         emplace<T>(std::forward<U>(t));
         return *this;
     }
-- 
2.43.0


From d641b14b3f57cb4d9d4476ed5ff59607b84339f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 019/102] fix: pending timers starved yielded coroutines, and
 yields starved I/O

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 27 ++++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 853c058..9ba43f4 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -22,6 +22,8 @@
 #include <map>
 #include <list>
 #include <coroutine>
+#include <algorithm>
+#include <optional>
 
 namespace HX::coroutine {
 
@@ -35,20 +37,27 @@ struct TimerLoop {
     TimerLoop& operator=(TimerLoop&&) = delete;
 
     std::optional<std::chrono::system_clock::duration> run() {
-        while (_timerTree.size()) {
-            auto nowTime = std::chrono::system_clock::now();
+        // 仅处理到进入时为止的定时器与 yield, 之后产生的留到下一轮;
+        // 否则它们会让其他任务 (定时器, yield, IO) 得不到执行
+        auto nowTime = std::chrono::system_clock::now();
+        while (_timerTree.size() && _timerTree.begin()->first <= nowTime) {
             auto it = _timerTree.begin();
-            if (it->first <= nowTime) {
-                it->second.resume();
-                _timerTree.erase(it);
-            } else {
-                return it->first - nowTime;
-            }
+            it->second.resume();
+            _timerTree.erase(it);
         }
-        while (_yieldQueue.size()) {
+        for (auto cnt = _yieldQueue.size(); cnt && _yieldQueue.size(); --cnt) {
             _yieldQueue.front().resume();
             _yieldQueue.pop_front();
         }
+        if (_yieldQueue.size()) {
+            return std::chrono::system_clock::duration::zero();
+        }
+        if (_timerTree.size()) {
+            return std::max(
+                _timerTree.begin()->first - std::chrono::system_clock::now(),
+                std::chrono::system_clock::duration::zero()
+            );
+        }
         return {};
     }
 
-- 
2.43.0


From 8f705ad5fcb46fa37f47a116412d92a56e292960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 020/102] fix: awaiting a future on an event loop raced with
 the loop and with its own suspension

---
 include/HXLibs/container/FutureResult.hpp    | 35 ++++----
 include/HXLibs/coroutine/loop/EventLoop.hpp  | 12 ++-
 include/HXLibs/coroutine/loop/ThreadLoop.hpp | 90 ++++++++++++++------
 3 files changed, 96 insertions(+), 41 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4d1413c..4e55c7d 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -21,6 +21,7 @@
 #include <mutex>
 #include <condition_variable>
 #include <coroutine>
+#include <memory>
 
 #include <HXLibs/container/Uninitialized.hpp>
 #include <HXLibs/container/Try.hpp>
@@ -107,34 +108,38 @@ private:
 
     struct _hx_Await {
         _hx_Await(FutureResult&& self)
-            : _res{}
-            , _coroutine{}
+            : _state{std::make_shared<State>()}
         {
             auto* loop = self._coEventLoop.get();
-            std::move(self).thenTry([this, raii = loop->makeTheradTask(), _loop = loop](auto t) mutable {
-                _res.set(std::move(t));
-                _coroutine.resume(); // 执行完毕后, self 已经被销毁了.
-                raii.notify();
-                _loop->makeNopAioTask();
+            std::move(self).thenTry([state = _state, raii = loop->makeTheradTask()](auto t) mutable {
+                state->_res.set(std::move(t));
+                // 协程应该由事件循环所在的线程恢复
+                auto* coroutine = &state->_coroutine;
+                raii.notify({std::move(state), coroutine});
             });
         }
-
         _hx_Await& operator=(_hx_Await&&) noexcept = delete;
+        ~_hx_Await() noexcept {
+            _state->_coroutine = nullptr; // 协程可能在任务完成前销毁
+        }
 
         constexpr bool await_ready() const noexcept { return false; }
-        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
-            _coroutine = coroutine;
+        void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
+            _state->_coroutine = coroutine;
         }
-        constexpr auto await_resume() const {
-            auto t = _res.move();
+        auto await_resume() const {
+            auto t = _state->_res.move();
             if (!t) [[unlikely]] {
                 t.rethrow();
             }
             return t.move();
         }
     private:
-        mutable container::Uninitialized<FutureResult<T>::ArgTryType> _res;
-        mutable std::coroutine_handle<> _coroutine;
+        struct State {
+            container::Uninitialized<FutureResult<T>::ArgTryType> _res;
+            std::coroutine_handle<> _coroutine;
+        };
+        std::shared_ptr<State> _state;
     };
 public:
     using FutureResultType = _hx_Result;
@@ -157,7 +162,7 @@ public:
         return std::move(*this);
     }
 
-    constexpr auto operator co_await() && noexcept {
+    auto operator co_await() && {
         return _hx_Await{std::move(*this)};
     }
 
diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index b524979..f30b777 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -463,12 +463,22 @@ struct EventLoop {
      */
     void run() {
         for (;;) {
+            _theradLoop.run();
             auto timeout = _timerLoop.run();
             if (_eventDrive.isRun()) [[likely]] {
+                if (_theradLoop.isRun()) [[unlikely]] {
+                    // 其他线程不能操作 (唤醒) _eventDrive, 因此需要定期检查线程任务
+                    timeout = std::min<std::chrono::system_clock::duration>(
+                        timeout.value_or(std::chrono::milliseconds{1}),
+                        std::chrono::milliseconds{1}
+                    );
+                }
                 _eventDrive.run(timeout);
+            } else if (_theradLoop.isRun()) {
+                _theradLoop.wait(timeout);
             } else if (timeout) {
                 std::this_thread::sleep_for(*timeout);
-            } else if (!_theradLoop.isRun()) [[unlikely]] {
+            } else [[unlikely]] {
                 break;
             }
         }
diff --git a/include/HXLibs/coroutine/loop/ThreadLoop.hpp b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
index c2f1cb9..be5d157 100644
--- a/include/HXLibs/coroutine/loop/ThreadLoop.hpp
+++ b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
@@ -18,8 +18,14 @@
  * limitations under the License.
  */
 
-#include <mutex>
+#include <chrono>
 #include <condition_variable>
+#include <coroutine>
+#include <memory>
+#include <mutex>
+#include <optional>
+#include <utility>
+#include <vector>
 
 namespace HX::coroutine {
 
@@ -27,51 +33,88 @@ namespace HX::coroutine {
  * @brief 线程循环 (实际上仅是控制器)
  */
 struct ThreadLoop {
+    using ReadyCoroutine = std::shared_ptr<std::coroutine_handle<>>;
 private:
     struct _hx_ThreadLoopController {
         _hx_ThreadLoopController(ThreadLoop& self) noexcept
-            : _self{self}
+            : _self{&self}
         {
-            std::unique_lock _{_self._mtx};
-            ++_self._threadTaskCnt;
+            std::unique_lock _{_self->_mtx};
+            ++_self->_threadTaskCnt;
         }
 
         _hx_ThreadLoopController(_hx_ThreadLoopController const&) = delete;
         _hx_ThreadLoopController(_hx_ThreadLoopController&& that) noexcept
-            : _self{that._self}
+            : _self{std::exchange(that._self, nullptr)}
         {}
 
-        _hx_ThreadLoopController& operator=(_hx_ThreadLoopController const&) = delete;
-        _hx_ThreadLoopController& operator=(_hx_ThreadLoopController&&) noexcept {
-            return *this;
+        _hx_ThreadLoopController& operator=(_hx_ThreadLoopController&&) noexcept = delete;
+
+        /**
+         * @brief 线程任务已完成 (可在任意线程调用)
+         * @param coroutine 需要在事件循环所在线程恢复的协程, 如果恢复前被置空, 则不会恢复
+         */
+        void notify(ReadyCoroutine coroutine = {}) noexcept {
+            if (auto* self = std::exchange(_self, nullptr)) {
+                std::unique_lock _{self->_mtx};
+                if (coroutine) {
+                    self->_ready.push_back(std::move(coroutine));
+                }
+                --self->_threadTaskCnt;
+                self->_cv.notify_one();
+            }
         }
 
-        void notify() noexcept {
-            std::unique_lock _{_self._mtx};
-            --_self._threadTaskCnt;
-            _self.notify();
+        ~_hx_ThreadLoopController() noexcept {
+            notify();
         }
     private:
-        ThreadLoop& _self;  
+        ThreadLoop* _self;
     };
 public:
     ThreadLoop()
         : _mtx{}
         , _cv{}
+        , _ready{}
         , _threadTaskCnt{0}
     {}
 
+    /**
+     * @brief 是否还有未完成的线程任务
+     */
     bool isRun() noexcept {
-        std::size_t cnt = 0;
+        std::unique_lock _{_mtx};
+        return _threadTaskCnt || _ready.size();
+    }
+
+    /**
+     * @brief 在当前线程恢复所有等待的线程任务已经完成的协程
+     */
+    void run() {
+        std::vector<ReadyCoroutine> ready;
+        {
+            std::unique_lock _{_mtx};
+            ready.swap(_ready);
+        }
+        for (auto& co : ready) {
+            if (*co) {
+                co->resume();
+            }
+        }
+    }
+
+    /**
+     * @brief 挂起当前线程, 直到有线程任务完成或者超时
+     */
+    void wait(std::optional<std::chrono::system_clock::duration> timeout) {
         std::unique_lock lock{_mtx};
-        if (_threadTaskCnt == 0) {
-            return false;
+        auto cnt = _threadTaskCnt;
+        auto pred = [&] { return _ready.size() || cnt != _threadTaskCnt; };
+        if (timeout) {
+            _cv.wait_for(lock, *timeout, pred);
+        } else if (cnt) {
+            _cv.wait(lock, pred);
         }
-        cnt = _threadTaskCnt;
-        _cv.wait(lock, [&] {
-            return cnt > _threadTaskCnt;
-        });
-        return true;
     }
 
     auto makeThreadTask() noexcept {
@@ -79,12 +122,9 @@ public:
     }
 
 private:
-    void notify() noexcept {
-        _cv.notify_one();
-    }
-
     mutable std::mutex _mtx;
     std::condition_variable _cv;
+    std::vector<ReadyCoroutine> _ready;
     std::size_t _threadTaskCnt;
 };
 
-- 
2.43.0


From 1a2387174ff154ae383bead69b8e52114ed6b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 021/102] fix: SerialExecutor freed the coroutine it was
 running in and was wedged by a throwing task

Resuming a queued submitter can end the scope that owns the executor, whose
destructor then destroyed the very frames on the stack. A task that throws left
the executor marked as running for ever, or terminated the process when queued;
clear() while a task runs let the next submission overlap with it.
---
 .../coroutine/executor/SerialExecutor.hpp     | 104 +++++++++--------
 .../coroutine/executor/SerialExecutorPro.hpp  | 106 +-----------------
 2 files changed, 59 insertions(+), 151 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eefe5af..b740555 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -19,8 +19,9 @@
  */
 
 #include <queue>
-#include <list>
+#include <tuple>
 #include <memory>
+#include <utility>
 
 #include <HXLibs/coroutine/task/Task.hpp>
 
@@ -30,34 +31,30 @@ namespace HX::coroutine {
  * @brief 协程串行调度器
  */
 class SerialExecutor {
+    struct State;
+
+    /**
+     * @brief 依次执行排队任务的协程; 挂起时由 State 持有, 运行中不可销毁
+     */
     struct SerialTask {
         struct promise_type {
             StopAwaiter<true> initial_suspend() noexcept { return {}; }
             auto get_return_object() noexcept {
                 return std::coroutine_handle<promise_type>::from_promise(*this);
             }
-            StopAwaiter<false> final_suspend() noexcept {
-                _list->erase(_it);
-                return {};
-            }
+            StopAwaiter<false> final_suspend() noexcept { return {}; }
             void return_void() noexcept { }
             void unhandled_exception() noexcept { std::terminate(); }
-
-            std::list<std::coroutine_handle<promise_type>>* _list{};
-            std::list<std::coroutine_handle<promise_type>>::iterator _it;
         };
-
         using HandleType = std::coroutine_handle<promise_type>;
 
         SerialTask(HandleType h) : _handle(h) {}
         SerialTask& operator=(SerialTask&&) = delete;
 
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
-            return std::move(*this);
+        void detach(State& state) && {
+            state.runner = _handle;
+            _handle.resume();
         }
-        void detach() && { _handle.resume(); }
     private:
         HandleType _handle;
     };
@@ -66,8 +63,8 @@ class SerialExecutor {
         bool isRun{};
         // 传递引用, 防止其因为析构引发的 段错误
         std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
-        // SerialTask 运行队列
-        std::list<SerialTask::HandleType> runList;
+        // 正在等待某个排队任务完成的 SerialTask (没有则为空)
+        SerialTask::HandleType runner{};
     };
 
     struct SerialAwaiter {
@@ -76,14 +73,8 @@ class SerialExecutor {
             , _task{task}
         {}
         constexpr bool await_ready() const noexcept { return false; }
-        bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
-                return false;
-            }
-            q.push({_task, co});
-            return true;
+        void await_suspend(std::coroutine_handle<> co) const {
+            _mtx._state->q.push({_task, co});
         }
         constexpr void await_resume() const noexcept {}
     private:
@@ -91,21 +82,25 @@ class SerialExecutor {
         coroutine::Task<> const& _task;
     };
 
-    coroutine::Task<> start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
-        q.pop();
-        co_await task;
-        co.resume();
-        if (!isRun || q.empty()) {
-            isRun = false;
-            co_return;
+    static SerialTask run(std::shared_ptr<State> state) {
+        // 可能会在 co.resume() 中析构调度器, 故只使用 state
+        while (!state->q.empty()) {
+            auto [task, co] = state->q.front();
+            state->q.pop();
+            try {
+                co_await task;
+            } catch (...) {
+                // 由 serial() 重新抛给对应的提交者
+            }
+            // 提交者可能会析构调度器, 而正在运行的本协程不能被销毁
+            auto self = std::exchange(state->runner, {});
+            co.resume();
+            state->runner = self;
         }
-        [this]() -> SerialTask {
-            co_await start();
-        }().via(runList).detach();
+        state->runner = {};
+        state->isRun = false;
     }
+
 public:
     /**
      * @brief 串行调度
@@ -113,32 +108,43 @@ public:
      * @note 也就是说, 需要特别小心 whenAny 的使用
      */
     coroutine::Task<> serial(coroutine::Task<> const& t) {
-        co_await SerialAwaiter{*this, t};
-        if (auto& isRun = _runList->isRun; !isRun) {
-            isRun = true;
-            co_await start();
+        if (_state->isRun) {
+            co_await SerialAwaiter{*this, t};
+            t.getPromise().promise().result();
+            co_return;
         }
+        auto state = _state;
+        state->isRun = true;
+        try {
+            co_await t;
+        } catch (...) {
+            // 先让后面的任务执行, 再抛给提交者
+        }
+        if (state->q.empty()) {
+            state->isRun = false;
+        } else {
+            run(state).detach(*state);
+        }
+        t.getPromise().promise().result();
     }
 
     /**
      * @brief 清空所有正在等待的串行任务
      */
     void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
+        _state->q = {};
     }
 
     ~SerialExecutor() noexcept {
         clear();
+        if (auto runner = std::exchange(_state->runner, {})) {
+            _state->isRun = false;
+            runner.destroy();
+        }
     }
 private:
     // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    const std::shared_ptr<State> _state = std::make_shared<State>();
 };
 
 } // namespace HX::coroutine
diff --git a/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp b/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
index 9fc4a97..9dd3e28 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
@@ -18,10 +18,8 @@
  * limitations under the License.
  */
 
-#include <queue>
-#include <list>
-#include <memory>
 
+#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
 #include <HXLibs/coroutine/task/Task.hpp>
 #include <HXLibs/coroutine/loop/EventLoop.hpp>
 
@@ -34,87 +32,6 @@ namespace HX::coroutine {
  * @todo 一个废弃的方案
  */
 class SerialExecutorPro {
-    struct SerialTask {
-        struct promise_type {
-            StopAwaiter<true> initial_suspend() noexcept { return {}; }
-            auto get_return_object() noexcept {
-                return std::coroutine_handle<promise_type>::from_promise(*this);
-            }
-            StopAwaiter<false> final_suspend() noexcept {
-                _list->erase(_it);
-                return {};
-            }
-            constexpr void return_void() noexcept { }
-            void unhandled_exception() noexcept { std::terminate(); }
-            constexpr void result() const noexcept { }
-
-            std::list<std::coroutine_handle<promise_type>>* _list{};
-            std::list<std::coroutine_handle<promise_type>>::iterator _it;
-            std::coroutine_handle<> _previous{};
-        };
-
-        using HandleType = std::coroutine_handle<promise_type>;
-
-        SerialTask(HandleType h) : _handle(h) {}
-        SerialTask& operator=(SerialTask&&) = delete;
-
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
-            return std::move(*this);
-        }
-        void detach() && { _handle.resume(); }
-        constexpr ExitAwaiter<void, promise_type> operator co_await() const noexcept {
-            return ExitAwaiter<void, promise_type>{_handle};
-        }
-    private:
-        HandleType _handle;
-    };
-
-    struct State {
-        bool isRun{};
-        // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
-        // SerialTask 运行队列
-        std::list<SerialTask::HandleType> runList;
-    };
-
-    struct SerialAwaiter {
-        explicit SerialAwaiter(SerialExecutorPro& mtx, coroutine::Task<> const& task)
-            : _mtx{mtx}
-            , _task{task}
-        {}
-        constexpr bool await_ready() const noexcept { return false; }
-        constexpr bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
-                return false;
-            }
-            q.push({_task, co});
-            return true;
-        }
-        constexpr void await_resume() const noexcept {}
-    private:
-        SerialExecutorPro& _mtx;
-        coroutine::Task<> const& _task;
-    };
-
-    SerialTask start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
-        q.pop();
-        co_await task;
-        co.resume();
-        if (!isRun || q.empty()) {
-            isRun = false;
-            co_return;
-        }
-        [this, &runList]() -> SerialTask {
-            co_await start().via(runList);
-        }().via(runList).detach();
-    }
 public:
     explicit SerialExecutorPro(EventLoop& loop)
         : _loop{loop}
@@ -126,11 +43,7 @@ public:
      * @note 也就是说, 需要特别小心 whenAny 的使用
      */
     coroutine::Task<> serial(coroutine::Task<> const& t) {
-        co_await SerialAwaiter{*this, t};
-        if (auto& isRun = _runList->isRun; !isRun) {
-            isRun = true;
-            co_await start().via(_runList->runList);
-        }
+        co_await _executor.serial(t);
         co_await _loop.makeTimer().yield();
     }
 
@@ -138,22 +51,11 @@ public:
      * @brief 清空所有正在等待的串行任务
      */
     void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
-    }
-
-    ~SerialExecutorPro() noexcept {
-        clear();
+        _executor.clear();
     }
 private:
     EventLoop& _loop;
-    // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    SerialExecutor _executor{};
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From 6d46d0b50307c655e3a733c8010e6722098d4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 022/102] fix: an operation whose AioTask is gone was resumed
 anyway

A loser of whenAny, or a task destroyed by another one completed in the same
batch, was resumed through freed memory, and the kernel kept using its buffer.
The loop now owns the state of an operation until it completes, and destroying
an unfinished AioTask cancels it.
---
 include/HXLibs/coroutine/loop/EventLoop.hpp | 47 ++++++++++++++++----
 include/HXLibs/coroutine/task/AioTask.hpp   | 48 +++++++++++++++++++--
 2 files changed, 83 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index f30b777..ddf1b1f 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -108,6 +108,11 @@ struct IoUring {
     }
 
     ~IoUring() noexcept {
+        for (auto& state : _states) {
+            if (state.self) {
+                state.self->_state = nullptr;
+            }
+        }
         ::io_uring_queue_exit(&_ring);
     }
 
@@ -115,7 +120,10 @@ struct IoUring {
         // mandatory copy elision 场景
         // 编译器强制使用 RVO (返回值优化)
         // https://en.cppreference.com/w/cpp/language/copy_elision.html
-        return AioTask{getSqe()};
+        auto* sqe = getSqe();
+        auto it = _states.insert(_states.end(), AioState{nullptr, &_ring, &_numSqesPending, {}});
+        it->it = it;
+        return AioTask{sqe, *it};
     }
 
     /**
@@ -164,27 +172,47 @@ struct IoUring {
         unsigned head, numGot = 0;
         io_uring_for_each_cqe(&_ring, head, cqe) {
             ++numGot;
+            auto* state = reinterpret_cast<AioState*>(cqe->user_data);
+            if (!state) [[unlikely]] {
+                continue; // 仅 prepNop 或者取消操作
+            }
+            state->ring = nullptr;
             if (cqe->res == -ECANCELED) { // 操作已取消 (比如超时了)
+                release(*state);
                 continue;
             }
-            auto* task = reinterpret_cast<AioTask*>(cqe->user_data);
-            if (!task) [[unlikely]] {
-                continue; // 仅 prepNop
+            if (state->self) {
+                state->self->_res = cqe->res;
             }
-            task->_res = cqe->res;
-            tasks.push_back(task->_previous);
+            tasks.push_back(state);
         }
 
         // 手动前进完成队列的头部 (相当于批量io_uring_cqe_seen)
         ::io_uring_cq_advance(&_ring, numGot);
         _numSqesPending -= static_cast<std::size_t>(numGot);
-        for (const auto& it : tasks) {
-            it.resume();
+        for (auto* state : tasks) {
+            // 先恢复的协程可能已经销毁了后面的任务
+            if (auto* task = release(*state)) {
+                task->_previous.resume();
+            }
         }
         tasks.clear();
     }
 
 private:
+    /**
+     * @brief 操作已完成, 释放其状态
+     * @return AioTask* 对应的任务, 如果已经析构则为空
+     */
+    AioTask* release(AioState& state) {
+        auto* task = state.self;
+        if (task) {
+            task->_state = nullptr;
+        }
+        _states.erase(state.it);
+        return task;
+    }
+
     ::io_uring_sqe* getSqe() {
         // 获取一个任务
         ::io_uring_sqe* sqe = ::io_uring_get_sqe(&_ring);
@@ -214,7 +242,8 @@ private:
 
     ::io_uring _ring;
     std::size_t _numSqesPending; // 未完成的任务数
-    std::vector<std::coroutine_handle<>> tasks; // 协程任务队列
+    std::list<AioState> _states;    // 未完成的任务
+    std::vector<AioState*> tasks;   // 已完成的任务队列
                                                 // 提取为成员, 避免频繁构造临时变量导致频繁扩容
 };
 
diff --git a/include/HXLibs/coroutine/task/AioTask.hpp b/include/HXLibs/coroutine/task/AioTask.hpp
index 9d9ea2e..bf4a399 100644
--- a/include/HXLibs/coroutine/task/AioTask.hpp
+++ b/include/HXLibs/coroutine/task/AioTask.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  */
 
+#include <list>
 #include <span>
 
 #include <HXLibs/platform/EventLoopApi.hpp>
@@ -34,11 +35,30 @@ struct IoUring;
 
 } // namespace internal
 
+struct AioTask;
+
+namespace internal {
+
+/**
+ * @brief 内核中的一个异步操作
+ * @note 由 IoUring 持有到操作完成, 因此 AioTask 可以在操作完成之前析构 (如 whenAny 的败者)
+ */
+struct AioState {
+    AioTask* self;              // 为空表示 AioTask 已经析构, 没有协程需要恢复
+    ::io_uring* ring;           // 为空表示操作已经完成
+    std::size_t* pendingCnt;    // 未完成的任务数
+    std::list<AioState>::iterator it;
+};
+
+} // namespace internal
+
 struct AioTask {
-    AioTask(::io_uring_sqe* sqe) noexcept
+    AioTask(::io_uring_sqe* sqe, internal::AioState& state) noexcept
         : _sqe{sqe}
+        , _state{&state}
     {
-        ::io_uring_sqe_set_data(_sqe, this);
+        _state->self = this;
+        ::io_uring_sqe_set_data(_sqe, _state);
     }
 
 #if 0 // 注意: 不能存在`移动`, 否则 IoUring::makeAioTask 返回就是 构造的新对象; 屏蔽了移动, 反而是编译器优化!
@@ -75,6 +95,7 @@ private:
         ::io_uring_sqe* _sqe;
     };
     std::coroutine_handle<> _previous;
+    internal::AioState* _state; // 操作完成后为空
 
 public:
     /**
@@ -280,7 +301,28 @@ public:
         return whenAny(std::move(task), std::move(timeoutTask));
     }
 
-    ~AioTask() noexcept = default;
+    ~AioTask() noexcept {
+        if (!_state) {
+            return;
+        }
+        _state->self = nullptr;
+        if (!_state->ring) {
+            return;
+        }
+        // 操作还在进行, 立刻取消它, 以免内核继续使用即将失效的缓冲区
+        auto* sqe = ::io_uring_get_sqe(_state->ring);
+        if (!sqe) [[unlikely]] {
+            ::io_uring_submit(_state->ring);
+            sqe = ::io_uring_get_sqe(_state->ring);
+            if (!sqe) {
+                return;
+            }
+        }
+        ::io_uring_prep_cancel(sqe, _state, 0);
+        ::io_uring_sqe_set_data(sqe, nullptr);
+        ++*_state->pendingCnt;
+        ::io_uring_submit(_state->ring);
+    }
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From e25da1079f2c69e85a0e11ef56a6a03740af4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 023/102] fix: a full submission queue split an operation from
 its linked timeout

With more than 512 timed operations started in one iteration the operation was
submitted without its timeout, and the timeout alone, which failed at once and
was reported as an expired one.
---
 include/HXLibs/coroutine/task/AioTask.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/coroutine/task/AioTask.hpp b/include/HXLibs/coroutine/task/AioTask.hpp
index bf4a399..83ee327 100644
--- a/include/HXLibs/coroutine/task/AioTask.hpp
+++ b/include/HXLibs/coroutine/task/AioTask.hpp
@@ -73,9 +73,15 @@ struct AioTask {
 
     struct AioAwaiter {
         constexpr bool await_ready() const noexcept { return false; }
-        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
+        void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
             _task->_previous = coroutine;
             _task->_res = -ENOSYS;
+            // 此时操作 (及其链接的超时) 已经完整, 提前提交以保证后面成对的 sqe 不会被拆开
+            if (auto* ring = _task->_state ? _task->_state->ring : nullptr;
+                ring && ::io_uring_sq_space_left(ring) < 64
+            ) [[unlikely]] {
+                ::io_uring_submit(ring);
+            }
         }
         constexpr int await_resume() const noexcept {
             return _task->_res;
-- 
2.43.0


From f7e064f4fe7b2fc15c31f410372ac53ff8f524bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 024/102] fix: a loser of whenAny outlived it and resumed freed
 memory

Operands are referenced, so in a nested expression, or when they are named, the
losers kept running after whenAny had finished and then resumed its destroyed
wrappers. whenAny now owns movable rvalue operands and detaches the others.
---
 include/HXLibs/coroutine/awaiter/WhenAny.hpp | 28 ++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/coroutine/awaiter/WhenAny.hpp b/include/HXLibs/coroutine/awaiter/WhenAny.hpp
index 652b2c1..4388df6 100644
--- a/include/HXLibs/coroutine/awaiter/WhenAny.hpp
+++ b/include/HXLibs/coroutine/awaiter/WhenAny.hpp
@@ -85,10 +85,34 @@ struct WhenAnyAwaiter {
     WhenAnyCtlBlock& ctlBlock;
 };
 
+/**
+ * @brief 败者在 whenAny 结束时应该一同销毁, 因此右值 (可移动) 由 whenAny 持有; 其余只能引用
+ */
+template <typename T>
+using WhenAnyOperand = std::conditional_t<
+    !std::is_reference_v<T> && std::is_move_constructible_v<T>, T, T&&>;
+
+/**
+ * @brief 引用的协程会比 whenAny 活得久, 不能再让它恢复到已经销毁的 anyStart
+ */
+template <typename T>
+struct WhenAnyDetach {
+    T& t;
+
+    ~WhenAnyDetach() noexcept {
+        if constexpr (requires { t.getPromise().promise()._previous; }) {
+            if (auto handle = t.getPromise()) {
+                handle.promise()._previous = nullptr;
+            }
+        }
+    }
+};
+
 template <std::size_t Idx, AwaitableLike T, typename Res>
 Task<std::coroutine_handle<>, WhenAnyPromise> anyStart(
-    T&& t, Res& res, WhenAnyCtlBlock& ctlBlock
+    WhenAnyOperand<T> t, Res& res, WhenAnyCtlBlock& ctlBlock
 ) {
+    WhenAnyDetach<std::remove_reference_t<T>> detach{t};
     try {
         if constexpr (Awaiter<T>) {
             if constexpr (std::is_void_v<decltype(t.await_resume())>) {
@@ -131,7 +155,7 @@ Task<ResType> whenAny(std::index_sequence<Idx...>, Ts&&... ts) {
     // 2. 启动所有协程
     WhenAnyCtlBlock block;
     std::array<Task<std::coroutine_handle<>, WhenAnyPromise>, sizeof...(Ts)> cos {
-        anyStart<Idx>(std::forward<Ts>(ts), res, block)...
+        anyStart<Idx, Ts>(std::forward<Ts>(ts), res, block)...
     };
 
     // 3. 等待其中一个 (挂起)
-- 
2.43.0


From 5bc03d9f6432b630aab67e8e88879192d9759180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 025/102] fix: a growing thread pool counted workers still
 finishing as gone and exceeded its maximum

---
 include/HXLibs/container/ThreadPool.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 37af936..2c0c99b 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -206,12 +206,13 @@ private:
             makeWorker(_minThreadNum - _workers.size());
         }
         while (_isRun) [[likely]] {
-            uint32_t workerSize = 0;
+            uint32_t workerSize = 0, allSize = 0;
             {
                 // 已经退出的, 和已经要求退出的线程, 不能算作工作线程
                 std::lock_guard _{_mtx};
                 clearDelIdQueue();
-                workerSize = static_cast<uint32_t>(_workers.size()) - _delCnt;
+                allSize = static_cast<uint32_t>(_workers.size());
+                workerSize = allSize - _delCnt;
             }
             auto taskSize = static_cast<uint32_t>(_taskQueue.size());
             auto runCnt = std::min(_runCnt.load(), workerSize);
@@ -224,9 +225,9 @@ private:
                 runCnt,
                 workerSize - runCnt
             });
-            // 线程数必需保持在 [minNum, maxNum] 内
-            if (add > 0 && workerSize < maxNum) {
-                makeWorker(std::min(static_cast<uint32_t>(add), maxNum - workerSize));
+            // 线程数必需保持在 [minNum, maxNum] 内 (已要求退出但仍在执行任务的线程也占用名额)
+            if (add > 0 && allSize < maxNum) {
+                makeWorker(std::min(static_cast<uint32_t>(add), maxNum - allSize));
             } else if (add < 0 && workerSize > minNum) {
                 auto del = std::min(static_cast<uint32_t>(-add), workerSize - minNum);
                 {
-- 
2.43.0


From f2651e2a926bd07b6172fe482b893fe924d5bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 026/102] fix: AsyncFile leaked the descriptor of a directory
 or device, read past a path view

---
 include/HXLibs/utils/FileUtils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 061eff4..0081b38 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -129,9 +129,10 @@ public:
         ModeType mode = 0644
     ) {
 #if defined(__linux__)
+        std::string filePath{path}; // path 不一定以 '\0' 结尾
         _fd = HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepOpenat(
-                dirfd, path.data(), static_cast<int>(flags), mode
+                dirfd, filePath.c_str(), static_cast<int>(flags), mode
             )
         );
 #elif defined(_WIN32)
@@ -162,7 +163,12 @@ public:
 #else
         #error "Unsupported platform"
 #endif
-        _fileSize = FileUtils::getFileSize(path);
+        // 仅用于预分配; 目录、设备等没有大小, 不应该因此打开失败 (并且泄漏 _fd)
+        std::error_code ec;
+        _fileSize = std::filesystem::file_size(std::filesystem::path{path}, ec);
+        if (ec) {
+            _fileSize = 0;
+        }
     }
 
     /**
-- 
2.43.0


From bbf338b550d732e88830050522c27097680d6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 027/102] fix: putFileContent reported success when the content
 could not be written

---
 include/HXLibs/utils/FileUtils.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 0081b38..4e75b3e 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -93,11 +93,11 @@ public:
         if (!file.is_open()) [[unlikely]] {
             throw std::system_error{errno, std::generic_category()};
         }
-        std::copy(
-            content.begin(),
-            content.end(),
-            std::ostreambuf_iterator<char>(file)
-        );
+        file.write(content.data(), static_cast<std::streamsize>(content.size()));
+        file.close();
+        if (!file) [[unlikely]] {
+            throw std::system_error{errno, std::generic_category()};
+        }
     }
 };
 
-- 
2.43.0


From d9f597b1414f182ce2868e2a791c2fd41dc293f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 028/102] fix: the rest of a partial AsyncFile write overwrote
 the start of the file

---
 include/HXLibs/utils/FileUtils.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 4e75b3e..cbd5549 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -110,6 +110,7 @@ public:
     AsyncFile(coroutine::EventLoop& eventLoop)
         : _eventLoop{eventLoop}
         , _offset{}
+        , _writeOffset{}
         , _fileSize{}
         , _fd{kInvalidLocalFd}
     {}
@@ -292,6 +293,23 @@ public:
      * @param buf [in] 需要写入的数据
      */
     coroutine::Task<> write(std::span<char const> buf) {
+#if defined(__linux__)
+        // 不使用 -1 (当前位置): 部分写时内核不一定会更新当前位置, 余下的数据会写到错误的位置
+        auto offset = _writeOffset;
+        _writeOffset += buf.size();
+        try {
+            while (!buf.empty()) {
+                auto len = static_cast<std::size_t>(HXLIBS_CHECK_EVENT_LOOP(
+                    co_await _eventLoop.makeAioTask().prepWrite(_fd, buf, offset)
+                ));
+                buf = buf.subspan(len);
+                offset += len;
+            }
+        } catch (...) {
+            _writeOffset = offset;
+            throw;
+        }
+#else
         for (; !buf.empty(); buf = buf.subspan(
             static_cast<std::size_t>(HXLIBS_CHECK_EVENT_LOOP(
                 co_await _eventLoop.makeAioTask().prepWrite(
@@ -301,6 +319,7 @@ public:
         )) {
             // 文件 大多数情况下内核会尽量写满, 部分写很少见 (但不能依赖这一点!)
         }
+#endif // !__linux__
     }
 
     /**
@@ -354,6 +373,7 @@ public:
 private:
     coroutine::EventLoop& _eventLoop;
     uint64_t _offset;
+    uint64_t _writeOffset; // 写入位置 (追加模式下由内核忽略)
     std::uintmax_t _fileSize;
     LocalFdType _fd;
 };
-- 
2.43.0


From cfcc525fc90d476bd870d5341f3add8b64931f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 029/102] fix: an AsyncFile opened again kept the position of
 the previous file

---
 include/HXLibs/utils/FileUtils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index cbd5549..ebfb6b3 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -337,6 +337,7 @@ public:
     coroutine::Task<> close() {
         auto fd = _fd;
         _fd = kInvalidLocalFd;
+        _offset = _writeOffset = 0; // 再次打开时, 从头开始
         // 如果这里抛出异常, 会导致 析构也抛出异常, 这个的异常不应该导致析构也异常!!!
         HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepClose(fd)
-- 
2.43.0


From 7d2af1663a90bafae80dc66b720baabdecb3462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 030/102] fix: toLower/toUpper changed characters that are not
 letters, with misaligned access

---
 include/HXLibs/utils/StringUtils.hpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 6575e1a..06563b0 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -159,16 +159,10 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toLower(std::string& str) {
-        size_t len = str.size();
-        size_t ec = len / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] |= 0x2020'2020'2020'2020;
-        }
-        uint8_t *p1 = (uint8_t *)(p8 + ec);
-        len %= 8;
-        for (size_t i = 0; i < len; ++i) {
-            p1[i] |= 0x20;
+        for (auto& c : str) {
+            if (c >= 'A' && c <= 'Z') {
+                c = static_cast<char>(c - 'A' + 'a');
+            }
         }
     }
 
@@ -177,17 +171,11 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toUpper(std::string& str) {
-        if (str.empty())
-            return;
-        size_t len = str.size() + 1;
-        size_t alignlen = len + 8 - (len % 8);
-        str.resize(alignlen);
-        size_t ec = alignlen / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] &= 0xDFDF'DFDF'DFDF'DFDF;
+        for (auto& c : str) {
+            if (c >= 'a' && c <= 'z') {
+                c = static_cast<char>(c - 'a' + 'A');
+            }
         }
-        str.resize(len - 1);
     }
 
     /**
-- 
2.43.0


From 319299247340afa20756f110d9d559d2298f6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 031/102] fix: rfindAndTrim kept all but the first character of
 the delimiter

---
 include/HXLibs/utils/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 06563b0..4c169e9 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -187,7 +187,7 @@ struct StringUtil final {
     static std::string rfindAndTrim(std::string_view str, std::string_view delim) {
         std::size_t pos = str.rfind(delim);
         if (pos != std::string::npos) {
-            return std::string {str.substr(pos + 1)};
+            return std::string {str.substr(pos + delim.size())};
         }
         return std::string {str}; // 如果未找到分隔符, 返回原字符串
     }
-- 
2.43.0


From 284fe7d8651937ba1182ef45f935be507d27b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 032/102] fix: splitting by an empty delimiter never ended

---
 include/HXLibs/utils/StringUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 4c169e9..f0145d7 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -62,7 +62,7 @@ struct StringUtil final {
             return res;
 
         std::size_t start = 0;
-        std::size_t end = str.find(delim, start);
+        std::size_t end = delim.empty() ? std::string_view::npos : str.find(delim, start);
         while (end != std::string_view::npos) {
             if constexpr (SkipEmpty) {
                 auto tk = str.substr(start, end - start);
@@ -107,7 +107,7 @@ struct StringUtil final {
             return res;
 
         std::size_t start = 0;
-        std::size_t end = str.find(delim, start);
+        std::size_t end = delim.empty() ? std::string_view::npos : str.find(delim, start);
         while (end != std::string_view::npos) {
             if constexpr (SkipEmpty) {
                 auto tk = str.substr(start, end - start);
-- 
2.43.0


From 52c50a47f568efd0adaf8c80729ba4ce4dc90e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 033/102] fix: converting a floating point segment read past
 the end of its text

---
 include/HXLibs/net/router/RequestParsing.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/net/router/RequestParsing.hpp b/include/HXLibs/net/router/RequestParsing.hpp
index 4196453..b9c64f8 100644
--- a/include/HXLibs/net/router/RequestParsing.hpp
+++ b/include/HXLibs/net/router/RequestParsing.hpp
@@ -173,9 +173,9 @@ struct TypeInterpretation<uint64_t> {
 template <>
 struct TypeInterpretation<float> {
     static std::optional<float> wildcardElementTypeConversion(std::string_view we) {
-        char* end;
-        float value = std::strtof(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        float value;
+        auto result = std::from_chars(we.data(), we.data() + we.size(), value);
+        if (result.ec == std::errc() && result.ptr == we.data() + we.size()) {
             return value;
         }
         return std::nullopt;
@@ -185,9 +185,9 @@ struct TypeInterpretation<float> {
 template <>
 struct TypeInterpretation<double> {
     static std::optional<double> wildcardElementTypeConversion(std::string_view we) {
-        char* end;
-        double value = std::strtod(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        double value;
+        auto result = std::from_chars(we.data(), we.data() + we.size(), value);
+        if (result.ec == std::errc() && result.ptr == we.data() + we.size()) {
             return value;
         }
         return std::nullopt;
@@ -197,9 +197,9 @@ struct TypeInterpretation<double> {
 template <>
 struct TypeInterpretation<long double> {
     static std::optional<long double> wildcardElementTypeConversion(std::string_view we) {
-        char* end;
-        long double value = std::strtold(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        long double value;
+        auto result = std::from_chars(we.data(), we.data() + we.size(), value);
+        if (result.ec == std::errc() && result.ptr == we.data() + we.size()) {
             return value;
         }
         return std::nullopt;
-- 
2.43.0


From 7120395b5a8a6de5cf24458ad54513e1192f7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 034/102] fix: text with trailing garbage was converted to a
 number

---
 include/HXLibs/net/protocol/http/Request.hpp        | 4 ++--
 include/HXLibs/reflection/deserialization/Numer.hpp | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..7838d9f 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -53,8 +53,8 @@ struct PathParam {
             || std::is_floating_point_v<T> 
             || std::is_enum_v<T>)
     T to() const {
-        T t;
-        reflection::Numer::fromNumer(t, _pathParam.begin(), _pathParam.end());
+        T t{};
+        reflection::Numer::fromNumer(t, _pathParam);
         return t;
     }
 
diff --git a/include/HXLibs/reflection/deserialization/Numer.hpp b/include/HXLibs/reflection/deserialization/Numer.hpp
index 2096242..477c32f 100644
--- a/include/HXLibs/reflection/deserialization/Numer.hpp
+++ b/include/HXLibs/reflection/deserialization/Numer.hpp
@@ -141,7 +141,13 @@ struct Numer {
 
     template <typename T>
     static void fromNumer(T& t, std::string_view sv) {
-        fromNumer(t, sv.begin(), sv.end());
+        auto it = sv.begin();
+        auto end = sv.end();
+        fromNumer(t, it, end);
+        if (it != end) [[unlikely]] { // 必需保证整个 sv 都被解析
+            throw std::runtime_error{
+                "There was an error parsing: " + std::string{sv}};
+        }
     }
 };
 
-- 
2.43.0


From ececcb7736381db42e2b705a86b83a0824c92218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 035/102] fix: converting a long double segment still read past
 the end of its text

---
 include/HXLibs/net/router/RequestParsing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/RequestParsing.hpp b/include/HXLibs/net/router/RequestParsing.hpp
index b9c64f8..ae0e537 100644
--- a/include/HXLibs/net/router/RequestParsing.hpp
+++ b/include/HXLibs/net/router/RequestParsing.hpp
@@ -198,8 +198,9 @@ template <>
 struct TypeInterpretation<long double> {
     static std::optional<long double> wildcardElementTypeConversion(std::string_view we) {
         long double value;
-        auto result = std::from_chars(we.data(), we.data() + we.size(), value);
-        if (result.ec == std::errc() && result.ptr == we.data() + we.size()) {
+        std::string str{we}; // libstdc++ 的 long double 版本可能会读到 '\0' 为止
+        auto result = std::from_chars(str.data(), str.data() + str.size(), value);
+        if (result.ec == std::errc() && result.ptr == str.data() + str.size()) {
             return value;
         }
         return std::nullopt;
-- 
2.43.0


From c758174bb85a5cd8176a2f76f6a729e5e16a2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 036/102] fix: log messages of several threads were mixed and
 cut at a NUL character

---
 include/HXLibs/log/Log.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/log/Log.hpp b/include/HXLibs/log/Log.hpp
index 12a8661..4f345cf 100644
--- a/include/HXLibs/log/Log.hpp
+++ b/include/HXLibs/log/Log.hpp
@@ -30,9 +30,7 @@ struct Log {
     template <typename... Ts>
     void debug(Ts const&... ts) const {
 #ifndef NDEBUG
-        printf("\033[1;35m[DEBUG]\033[0m \033[38;5;244m"); // 紫色标签 + 灰内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;35m[DEBUG]\033[0m \033[38;5;244m", ts...); // 紫色标签 + 灰内容
 #else
         (static_cast<void>(ts), ...);
 #endif
@@ -40,23 +38,27 @@ struct Log {
 
     template <typename... Ts>
     void info(Ts const&... ts) const {
-        printf("\033[1;32m[INFO]\033[0m \033[32m"); // 亮绿标签 + 正常绿内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;32m[INFO]\033[0m \033[32m", ts...); // 亮绿标签 + 正常绿内容
     }
 
     template <typename... Ts>
     void warning(Ts const&... ts) const {
-        printf("\033[1;33m[WARNING]\033[0m \033[33m"); // 亮黄标签 + 正黄内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;33m[WARNING]\033[0m \033[33m", ts...); // 亮黄标签 + 正黄内容
     }
 
     template <typename... Ts>
     void error(Ts const&... ts) const {
-        printf("\033[1;31m[ERROR]\033[0m \033[31m"); // 亮红标签 + 正红内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;31m[ERROR]\033[0m \033[31m", ts...); // 亮红标签 + 正红内容
+    }
+
+private:
+    // 一条日志必需一次性写出, 否则多线程时会交错; 并且内容可能含有 '\0'
+    template <typename... Ts>
+    static void print(std::string_view head, Ts const&... ts) {
+        std::string res{head};
+        ((res += formatString(ts), res += ' '), ...);
+        res += "\033[0m\n";
+        std::fwrite(res.data(), 1, res.size(), stdout);
     }
 };
 
-- 
2.43.0


From c69d307eabfc5b83fc896ceaf2ffbfae76318ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 037/102] fix: malformed http heads were mis-parsed

A header line without ": " dereferenced the end iterator or was glued to the
previous field, "K:V" was not a field, repeated fields were dropped, a bad
request or status line was waited on forever, and a head line longer than the
buffer looked like a disconnect.
---
 include/HXLibs/net/protocol/http/Http.hpp     | 79 +++++++++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp  | 39 ++++-----
 include/HXLibs/net/protocol/http/Response.hpp | 29 ++++---
 3 files changed, 113 insertions(+), 34 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f1b959d..3e7881f 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -24,6 +24,7 @@
 #include <unordered_map>
 #include <optional>
 #include <chrono>
+#include <stdexcept>
 
 namespace HX::net {
 
@@ -141,6 +142,84 @@ using HeaderHashMap = std::unordered_map<
     internal::TransparentCaseInsensitiveEqual
 >;
 
+namespace internal {
+
+/**
+ * @brief 是否是合法的 token (如: 请求方法, 头部字段名)
+ */
+inline constexpr bool isToken(std::string_view sv) noexcept {
+    using namespace std::string_view_literals;
+    for (char c : sv) {
+        if (c <= ' ' || c >= 0x7F || "\"(),/:;<=>?@[\\]{}"sv.find(c) != std::string_view::npos) {
+            return false;
+        }
+    }
+    return !sv.empty();
+}
+
+/**
+ * @brief 是否是合法的 Http 协议版本 (如: HTTP/1.1)
+ */
+inline constexpr bool isHttpVersion(std::string_view sv) noexcept {
+    using namespace std::string_view_literals;
+    constexpr auto isDigit = [](char c) { return c >= '0' && c <= '9'; };
+    return sv.size() == 8 && sv.starts_with("HTTP/"sv)
+        && isDigit(sv[5]) && sv[6] == '.' && isDigit(sv[7]);
+}
+
+/**
+ * @brief 解析一行头部字段 (不含`\r\n`, 非空), 并且放入 headers
+ * @param headers 头部字段
+ * @param last [in, out] 上一次解析的头部字段
+ * @param line 一行
+ * @throw std::runtime_error 该行不是合法的头部字段
+ */
+inline void parseHeaderLine(
+    HeaderHashMap& headers,
+    HeaderHashMap::iterator& last,
+    std::string_view line
+) {
+    using namespace std::string_view_literals;
+    constexpr auto trim = [](std::string_view sv) {
+        auto const begin = sv.find_first_not_of(" \t"sv);
+        if (begin == std::string_view::npos) {
+            return std::string_view{};
+        }
+        return sv.substr(begin, sv.find_last_not_of(" \t"sv) - begin + 1);
+    };
+    if (line.find_first_of("\0\r\n"sv) != std::string_view::npos) [[unlikely]] {
+        throw std::runtime_error{"Bad http header"};
+    }
+    if (line.front() == ' ' || line.front() == '\t') {
+        // 折行: 接在上一个解析的键值对的值尾
+        if (last == headers.end()) [[unlikely]] {
+            throw std::runtime_error{"Bad http header"};
+        }
+        last->second += ' ';
+        last->second += trim(line);
+        return;
+    }
+    auto const pos = line.find(':');
+    if (pos == std::string_view::npos || !isToken(line.substr(0, pos))) [[unlikely]] {
+        throw std::runtime_error{"Bad http header"};
+    }
+    // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
+    std::string key{line.substr(0, pos)};
+    for (auto& c : key) {
+        c = static_cast<char>(toLower(static_cast<unsigned char>(c)));
+    }
+    auto const val = trim(line.substr(pos + 1));
+    auto [it, isNew] = headers.try_emplace(std::move(key), val);
+    if (!isNew) {
+        // 重复的字段, 等价于以`,`分割的列表
+        it->second += ", ";
+        it->second += val;
+    }
+    last = it;
+}
+
+} // namespace internal
+
 /**
  * @brief 断点续传参数包
  */
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 7838d9f..8b4ff00 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -306,6 +306,9 @@ public:
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
         for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+            if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
+                throw std::runtime_error{"Http head is too large"};
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -674,8 +677,12 @@ private:
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
         switch ((_completeRequestHeader << 1) | (!_requestLine.empty())) {
             case 0x00: { // 什么也没有解析, 开始解析请求行
+                while (buf.starts_with(CRLF)) [[unlikely]] { // 忽略请求行之前的空行
+                    buf = buf.substr(2);
+                }
                 std::size_t pos = buf.find(CRLF);
                 if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
+                    _recvBuf.moveToHead(buf);
                     return IO::kBufMaxSize;
                 }
                 std::string_view reqLine = buf.substr(0, pos);
@@ -685,12 +692,15 @@ private:
                     reqLine, " "sv
                 );
 
-                if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
-                } 
-                // else if (_requestLine.size() > 3) [[unlikely]] {
-                // @todo 理论上不会出现
-                // }
+                if (_requestLine.size() != 3
+                    || !internal::isToken(_requestLine[RequestLineDataType::RequestType])
+                    || !internal::isHttpVersion(_requestLine[RequestLineDataType::ProtocolVersion])
+                    || std::ranges::any_of(_requestLine[RequestLineDataType::RequestPath], [](char c) {
+                        return (c >= 0 && c <= ' ') || c == 0x7F;
+                    })
+                ) [[unlikely]] {
+                    throw std::runtime_error{"Bad http request line"};
+                }
 
                 buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 [[fallthrough]];
@@ -698,9 +708,7 @@ private:
             case 0x01: { // 解析完请求行, 开始解析请求头
                 /**
                  * @brief 请求头
-                 * 通过`\r\n`分割后, 取最前面的, 先使用最左的`:`以判断是否是需要作为独立的键值对;
-                 * -  如果找不到`:`, 并且 非空, 那么它需要接在上一个解析的键值对的值尾
-                 * -  否则即请求头解析完毕!
+                 * 通过`\r\n`分割后, 取最前面的, 空行即解析完毕
                  */
                 while (!_completeRequestHeader) { // 请求头未解析完
                     std::size_t pos = buf.find(CRLF);
@@ -709,17 +717,10 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
-                            _requestHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeRequestHeader = true;
-                        }
+                    if (subKVStr.empty()) { // 请求头解析完毕!
+                        _completeRequestHeader = true;
                     } else {
-                        // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _requestHeadersIt = _requestHeaders.insert(p).first;
+                        internal::parseHeaderLine(_requestHeaders, _requestHeadersIt, subKVStr);
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..5273dfd 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -184,6 +184,9 @@ public:
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
         for (std::size_t n = IO::kBufMaxSize; n; n = _parserResHead()) {
+            if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
+                throw std::runtime_error{"Http head is too large"};
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -875,8 +878,13 @@ private:
                     _statusLine = utils::StringUtil::split<std::string>(
                         buf.substr(0, pos), " "sv
                     );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
+                    if (_statusLine.size() < 2
+                        || !internal::isHttpVersion(_statusLine[ResponseLineDataType::ProtocolVersion])
+                    ) [[unlikely]] {
+                        throw std::runtime_error{"Bad http status line"};
+                    }
+                    if (_statusLine.size() < 3) {
+                        _statusLine.emplace_back(); // 状态信息可以为空
                     }
                     if (_statusLine.size() > 3) {
                         auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
@@ -893,9 +901,7 @@ private:
             case 0x01: { // 响应头
                 /**
                  * @brief 请求头
-                 * 通过`\r\n`分割后, 取最前面的, 先使用最左的`:`以判断是否是需要作为独立的键值对;
-                 * -  如果找不到`:`, 并且 非空, 那么它需要接在上一个解析的键值对的值尾
-                 * -  否则即请求头解析完毕!
+                 * 通过`\r\n`分割后, 取最前面的, 空行即解析完毕
                  */
                 while (!_completeResponseHeader) { // 响应头未解析完
                     std::size_t pos = buf.find(CRLF);
@@ -904,17 +910,10 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
-                            _responseHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeResponseHeader = true;
-                        }
+                    if (subKVStr.empty()) { // 请求头解析完毕!
+                        _completeResponseHeader = true;
                     } else {
-                        // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _responseHeadersIt = _responseHeaders.insert(p).first;
+                        internal::parseHeaderLine(_responseHeaders, _responseHeadersIt, subKVStr);
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
-- 
2.43.0


From cecb6f9e95ccc5d3385545b092df33ff42607124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 038/102] fix: http bodies did not end where they should

A content-length body swallowed the bytes after it (and the length wrapped
around), the end of a chunked body was left in the buffer, chunks split near
their CRLF were mis-parsed or threw, and invalid lengths or chunk sizes were
accepted, indexed out of bounds or mixed up.
---
 include/HXLibs/net/protocol/http/Http.hpp     | 104 +++++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp  | 124 +-----------------
 include/HXLibs/net/protocol/http/Response.hpp |  61 +--------
 3 files changed, 110 insertions(+), 179 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index 3e7881f..c433714 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -18,7 +18,10 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <array>
+#include <charconv>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -218,6 +221,107 @@ inline void parseHeaderLine(
     last = it;
 }
 
+/**
+ * @brief 解析正文 (content-length 或 分块传输编码), 恰好消费属于正文的字节, 之后的字节留在 recvBuf
+ * @param headers 头部字段
+ * @param recvBuf 接收缓冲区
+ * @param remaining [in, out] content-length: 剩余正文长度;
+ *                  分块传输编码: 当前块的剩余长度 (含末尾的`\r\n`), `0` 则为正在解析尾部字段
+ * @param body [out] 正文追加到其尾部
+ * @return std::size_t 还需要读取的字节数 (最大值), `0` 则为解析完毕
+ * @throw std::runtime_error 正文不合法
+ */
+template <typename Buf>
+inline std::size_t parseBody(
+    HeaderHashMap const& headers,
+    Buf& recvBuf,
+    std::optional<std::size_t>& remaining,
+    std::string& body
+) {
+    using namespace std::string_view_literals;
+    constexpr auto toNum = [](std::string_view sv, int base) {
+        std::size_t num = 0;
+        auto const res = std::from_chars(sv.data(), sv.data() + sv.size(), num, base);
+        if (res.ec != std::errc{} || res.ptr != sv.data() + sv.size()
+            || num > std::numeric_limits<std::size_t>::max() / 2
+        ) [[unlikely]] {
+            throw std::runtime_error{"Bad http body length"};
+        }
+        return num;
+    };
+    std::string_view buf{recvBuf.data(), recvBuf.size()};
+    auto const lenIt = headers.find(CONTENT_LENGTH_SV);
+    auto const teIt = headers.find(TRANSFER_ENCODING_SV);
+    if (lenIt != headers.end() && teIt != headers.end()) [[unlikely]] {
+        throw std::runtime_error{"Ambiguous http body length"};
+    }
+    if (lenIt != headers.end()) { // 存在content-length模式接收的正文
+        if (!remaining) {
+            remaining = toNum(lenIt->second, 10);
+        }
+        auto const n = std::min(*remaining, buf.size());
+        body.append(buf.substr(0, n));
+        *remaining -= n;
+        recvBuf.moveToHead(buf.substr(n));
+        return *remaining;
+    }
+    if (teIt == headers.end()) { // 没有正文
+        return 0;
+    }
+    /**
+     * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25)
+     */
+    if (!TransparentCaseInsensitiveEqual{}(teIt->second, "chunked"sv)) [[unlikely]] {
+        throw std::runtime_error{"Unsupported transfer-encoding"};
+    }
+    for (;;) {
+        if (!remaining || !*remaining) { // 块长度 或 尾部字段
+            auto const pos = buf.find(CRLF);
+            if (pos == std::string_view::npos) { // 没有读完
+                recvBuf.moveToHead(buf);
+                if (recvBuf.size() == recvBuf.max_size()) [[unlikely]] {
+                    throw std::runtime_error{"Bad http chunk"};
+                }
+                return recvBuf.max_size();
+            }
+            auto line = buf.substr(0, pos);
+            buf = buf.substr(pos + 2);
+            if (remaining) { // 尾部字段, 忽略
+                if (line.empty()) { // 解析完毕
+                    recvBuf.moveToHead(buf);
+                    return 0;
+                }
+                continue;
+            }
+            line = line.substr(0, line.find(';')); // 忽略块扩展
+            line = line.substr(0, line.find_last_not_of(" \t"sv) + 1);
+            auto const size = toNum(line, 16);
+            remaining = size ? size + 2 : 0;
+            continue;
+        }
+        if (*remaining > 2) {
+            auto const n = std::min(*remaining - 2, buf.size());
+            body.append(buf.substr(0, n));
+            *remaining -= n;
+            buf = buf.substr(n);
+        }
+        if (*remaining <= 2) { // 块末尾的 \r\n
+            auto const n = std::min(*remaining, buf.size());
+            if (buf.substr(0, n) != CRLF.substr(2 - *remaining, n)) [[unlikely]] {
+                throw std::runtime_error{"Bad http chunk"};
+            }
+            *remaining -= n;
+            buf = buf.substr(n);
+            if (!*remaining) {
+                remaining.reset();
+                continue;
+            }
+        }
+        recvBuf.clear(); // 没有读完
+        return recvBuf.max_size();
+    }
+}
+
 } // namespace internal
 
 /**
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8b4ff00..98cd6b4 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -745,65 +745,7 @@ private:
      * @return std::size_t 还需要解析的字节数
      */
     std::size_t _parserReqBody() {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 计算剩余待解析字节数
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
-        } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
-            /**
-             * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
-             * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
-        }
-        return 0;
+        return internal::parseBody(_requestHeaders, _recvBuf, _remainingBodyLen, _body);
     }
 
     /**
@@ -811,66 +753,10 @@ private:
      * @return std::size_t 还需要解析的字节数
      */
     coroutine::Task<std::size_t> _coParserReqBody(utils::AsyncFile& file) {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 计算剩余待解析字节数
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
-                co_return *_remainingBodyLen;
-            }
-        } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
-            /**
-             * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
-             * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    co_return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    co_return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
-        }
-        co_return 0;
+        auto const n = _parserReqBody();
+        co_await file.write(_body);
+        _body.clear();
+        co_return n;
     }
 };
 
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 5273dfd..e224c6e 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -937,66 +937,7 @@ private:
      * @return std::size_t 还需要解析的字节数
      */
     std::size_t _parserReqBody() {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 是 空行之后 (\r\n\r\n) 的内容大小(char)
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
-        } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
-        } 
-        // else if (_responseHeaders.contains("content-range")) {
-            // 断点续传 @todo
-        // }
-        _recvBuf.moveToHead(buf);
-        return 0;
+        return internal::parseBody(_responseHeaders, _recvBuf, _remainingBodyLen, _body);
     }
 
     /**
-- 
2.43.0


From 32302256b6ac207ce905807830a68e074738cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 039/102] fix: saving a request body to a file truncated the
 file of an already parsed body and leaked the descriptor on errors

---
 include/HXLibs/net/protocol/http/Request.hpp | 44 ++++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 98cd6b4..56ace2a 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -409,32 +409,40 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> saveToFile(std::string_view path) {
-        utils::AsyncFile file{_io};
-        co_await file.open(path, utils::OpenMode::Write);
         if (_completeBody) [[unlikely]] {
             // 已经解析过 Http Body 了
             throw std::runtime_error{"Have already analyzed the http body"};
         }
+        utils::AsyncFile file{_io};
+        co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
-        for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
-            auto res = co_await _io.template recvLinkTimeout<Timeout>(
-                // 保留原有的数据
-                {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
-            );
-            if (res.index() == 1) [[unlikely]] {
-                // 超时
-                throw std::runtime_error{"parseBody: Recv timeout"};
-            }
-            auto recvN = HXLIBS_CHECK_EVENT_LOOP(
-                (res.template get<0, exception::ExceptionMode::Nothrow>())
-            );
-            if (recvN == 0) [[unlikely]] {
-                // 连接断开
-                throw std::runtime_error{"parseBody: Connection is Broken"};
+        std::exception_ptr err{};
+        try {
+            for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
+                auto res = co_await _io.template recvLinkTimeout<Timeout>(
+                    // 保留原有的数据
+                    {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
+                );
+                if (res.index() == 1) [[unlikely]] {
+                    // 超时
+                    throw std::runtime_error{"parseBody: Recv timeout"};
+                }
+                auto recvN = HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+                );
+                if (recvN == 0) [[unlikely]] {
+                    // 连接断开
+                    throw std::runtime_error{"parseBody: Connection is Broken"};
+                }
+                _recvBuf.addSize(static_cast<std::size_t>(recvN));
             }
-            _recvBuf.addSize(static_cast<std::size_t>(recvN));
+        } catch (...) {
+            err = std::current_exception();
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
     }
 
     // @todo 
-- 
2.43.0


From 61ec5486c91c3624dc59cc0255adeccb941ee025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 040/102] fix: data of the next request was dropped, and path
 parameters of the previous one stayed

Bytes received after a request were thrown away (or, when its body failed to
parse, taken as the next request), so pipelined requests were lost.
---
 include/HXLibs/net/protocol/http/Request.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 56ace2a..0005558 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -305,7 +305,8 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        // 缓冲区中可能已经有下一个请求的数据了
+        for (std::size_t n = _parserReqHead(); n; n = _parserReqHead()) {
             if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
                 throw std::runtime_error{"Http head is too large"};
             }
@@ -555,14 +556,20 @@ public:
         if (!_completeBody) {
             // 250 ms, 如果解析不完, 就滚蛋! 传递这么多没用的干什么?!
             co_await parseBody<decltype(250_ms)>();
+        } else if (!_isBodyEnd) [[unlikely]] {
+            // 正文解析到一半就失败了, 之后的数据不是下一个请求
+            throw std::runtime_error{"The http body is incomplete"};
         }
         _completeBody = false;
+        _isBodyEnd = false;
         _boundary = {};
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
+        // 不清空 _recvBuf, 其中剩余的是下一个请求的数据
         _body.clear();
+        _wildcarDataArr = {};
+        _urlWildcardData = {};
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
     }
@@ -620,6 +627,11 @@ private:
      */
     bool _completeBody = false;
 
+    /**
+     * @brief Body 是否已经解析到末尾
+     */
+    bool _isBodyEnd = false;
+
     template <typename>
     friend class Router;
     template <typename>
@@ -753,7 +765,9 @@ private:
      * @return std::size_t 还需要解析的字节数
      */
     std::size_t _parserReqBody() {
-        return internal::parseBody(_requestHeaders, _recvBuf, _remainingBodyLen, _body);
+        auto const n = internal::parseBody(_requestHeaders, _recvBuf, _remainingBodyLen, _body);
+        _isBodyEnd = !n;
+        return n;
     }
 
     /**
-- 
2.43.0


From 5bd6dfa6c5c297adb4ea36cba595b91296102677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 041/102] fix: getPathParam() read out of bounds instead of
 throwing std::out_of_range

---
 include/HXLibs/net/protocol/http/Request.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 0005558..f906f0a 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -516,6 +516,9 @@ public:
         if (_wildcarDataArr.empty()) [[unlikely]] {
             throw std::runtime_error("No path parameters available to parse.");
         }
+        if (index >= _wildcarDataArr.size()) [[unlikely]] {
+            throw std::out_of_range("The path parameter index is out of range.");
+        }
         return _wildcarDataArr[index];
     }
 
-- 
2.43.0


From 425a6af1dce54e8eddadca4a402faccfe607a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 042/102] fix: the query string took part in routing

A '/' in the query added path segments, so such a request was not found or
made the parameters of another route be read out of bounds.
---
 include/HXLibs/net/router/Router.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 3dcb9dd..e84e063 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -50,7 +50,7 @@ public:
         std::string_view path
     ) const {
         auto findLink = utils::StringUtil::split<std::string_view>(
-            path,
+            path.substr(0, path.find('?')), // 查询参数不参与匹配
             "/",
             {method}
         );
-- 
2.43.0


From 394da449d17a50eaecedab65c7c7782f6c71aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 043/102] fix: the wildcard remainder was cut at the wrong
 place when the path has repeated slashes

---
 include/HXLibs/net/router/Router.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index e84e063..51eb963 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -239,7 +239,10 @@ private:
                 break;
             }
             case 0x2: {// 仅解析通配符
-                auto UWPIndex = path.find("/**"sv);
+                // `**` 之前有多少段
+                auto UWPIndex = utils::StringUtil::split<std::string_view>(
+                    path.substr(0, path.find("/**"sv)), "/"
+                ).size();
                 realEndpoint = [this, endpoint = std::move(endpoint), UWPIndex,
                                 ... interceptors = interceptors](
                                    Request &req,
@@ -249,7 +252,9 @@ private:
                     bool ok = true;
                     auto pureRequesPath = req.getPureReqPath();
                     std::string_view pureRequesPathView = pureRequesPath;
-                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex);
+                    auto pathSplitArr = utils::StringUtil::splitWithPos<std::string_view>(pureRequesPathView, "/");
+                    auto wildcardPos = pathSplitArr.at(UWPIndex).first;
+                    req._urlWildcardData = pureRequesPathView.substr(wildcardPos ? wildcardPos - 1 : 0);
 #if defined(_MSC_VER)
                     co_await doBeforeAll(ok, req, res, interceptors...);
 #else
-- 
2.43.0


From 013d141d1dd28def43551a692c3db3ebf32ce049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 044/102] fix: "Connection: Close" kept the connection open

---
 include/HXLibs/net/protocol/http/Http.hpp     | 20 +++++++++++++++++++
 .../HXLibs/net/server/ConnectionHandler.hpp   |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index c433714..75f57ef 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -160,6 +160,26 @@ inline constexpr bool isToken(std::string_view sv) noexcept {
     return !sv.empty();
 }
 
+/**
+ * @brief 以`,`分割的列表中是否存在 token (忽略大小写)
+ */
+inline bool hasToken(std::string_view list, std::string_view token) noexcept {
+    using namespace std::string_view_literals;
+    for (;;) {
+        auto const pos = list.find(',');
+        auto item = list.substr(0, pos);
+        item = item.substr(std::min(item.find_first_not_of(" \t"sv), item.size()));
+        item = item.substr(0, item.find_last_not_of(" \t"sv) + 1);
+        if (TransparentCaseInsensitiveEqual{}(item, token)) {
+            return true;
+        }
+        if (pos == std::string_view::npos) {
+            return false;
+        }
+        list = list.substr(pos + 1);
+    }
+}
+
 /**
  * @brief 是否是合法的 Http 协议版本 (如: HTTP/1.1)
  */
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 2cf670b..4febeea 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -64,7 +64,7 @@ struct ConnectionHandler {
                     )(req, res);
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
-                        (it != req.getHeaders().end() && it->second == "close"sv)
+                        (it != req.getHeaders().end() && internal::hasToken(it->second, "close"sv))
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
-- 
2.43.0


From a047e1b7a1a400f235247d653761261fcaca9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 045/102] fix: the response to a HEAD request carried a body

---
 include/HXLibs/net/protocol/http/Response.hpp   | 13 +++++++++++--
 include/HXLibs/net/server/ConnectionHandler.hpp |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index e224c6e..29be880 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -386,7 +386,10 @@ public:
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是分块编码
         co_await _io.fullySend(_sendBuf);
-        
+        if (_isHeadReq) [[unlikely]] {
+            co_return;
+        }
+
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
         try {
@@ -776,6 +779,7 @@ private:
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
+    bool _isHeadReq = false;                        // [仅服务端] 是否为 HEAD 请求的响应 (没有响应体)
 
     template <typename>
     friend class WebSocketFactory;
@@ -783,6 +787,9 @@ private:
     template <typename>
     friend class internal::SseStream;
 
+    template <typename>
+    friend struct ConnectionHandler;
+
     /**
      * @brief [仅服务端] 生成响应行和响应头
      */
@@ -852,7 +859,9 @@ private:
         utils::StringUtil::append(_sendBuf, CRLF);
 
         utils::StringUtil::append(_sendBuf, CRLF);
-        utils::StringUtil::append(_sendBuf, std::move(_body));
+        if (!_isHeadReq) [[likely]] {
+            utils::StringUtil::append(_sendBuf, std::move(_body));
+        }
     }
 
     /**
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 4febeea..641ddf5 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -57,6 +57,7 @@ struct ConnectionHandler {
                     if (!co_await req.template parserReqHead<Timeout>()) [[unlikely]] {
                         break;
                     }
+                    res._isHeadReq = req.getReqType() == "HEAD"sv;
                     // 路由
                     co_await router.getEndpoint(
                         req.getReqType(), 
-- 
2.43.0


From e9c77e8acbc5d00031f9519ff5b5d3b3c868f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 046/102] fix: a file sent in chunks could corrupt the
 connection

An empty file was ended twice, a file that does not exist was created, and
after a failure in the middle the connection was used for the next response.
---
 include/HXLibs/net/protocol/http/Response.hpp | 87 ++++++++++---------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 29be880..e1a5a9a 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -379,56 +379,63 @@ public:
         auto fileType = getMimeType(
             utils::FileUtils::getExtension(filePath)
         );
-        setResLine(Status::CODE_200);
-        addHeader("Content-Type", fileType);
-        addHeader("Transfer-Encoding", "chunked");
-        // 生成响应行和响应头
-        _buildResponseLineAndHeaders();
-        // 先发送一版, 告知我们是分块编码
-        co_await _io.fullySend(_sendBuf);
-        if (_isHeadReq) [[unlikely]] {
-            co_return;
-        }
-
         utils::AsyncFile file{_io};
-        co_await file.open(filePath);
+        co_await file.open(filePath, utils::OpenMode::Read); // 打不开, 则什么都不发送
+        std::exception_ptr err{};
         try {
-            std::vector<char> buf(utils::FileUtils::kBufMaxSize);
-            // 读取文件
-            std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            /*
-                len\r\n
-                内容片段
-            */
-            _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.fullySend(_sendBuf);           // 发送
-            co_await _io.fullySend({buf.data(), size}); // 发送文件
-            for (;;) {
-                size = static_cast<std::size_t>(co_await file.read(buf));
-                if (!size) [[unlikely]] {
-                    /*
-                        \r\n
-                        0\r\n
-                        \r\n
-                    */
-                    // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
-                    _buildToChunkedEncoding<false, true>(0); // 发送完成的版本: \r\n0\r\n\r\n
-                    co_await _io.fullySend(_sendBuf);
-                    break;
-                }
+            setResLine(Status::CODE_200);
+            addHeader("Content-Type", fileType);
+            addHeader("Transfer-Encoding", "chunked");
+            // 生成响应行和响应头
+            _buildResponseLineAndHeaders();
+            // 先发送一版, 告知我们是分块编码
+            co_await _io.fullySend(_sendBuf);
+            if (!_isHeadReq) [[likely]] {
+                std::vector<char> buf(utils::FileUtils::kBufMaxSize);
+                // 读取文件
+                std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
                 /*
-                    \r\n
                     len\r\n
                     内容片段
                 */
-                _buildToChunkedEncoding(size);         // 补充上次的头版本: \r\nlen\r\n
-                co_await _io.fullySend(_sendBuf);      // 发送
-                co_await _io.fullySend({buf.data(), size});           // 发送文件
+                if (size) [[likely]] {
+                    _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
+                    co_await _io.fullySend(_sendBuf);           // 发送
+                    co_await _io.fullySend({buf.data(), size}); // 发送文件
+                } else { // 空文件
+                    _buildToChunkedEncoding<true, true>(0);
+                    co_await _io.fullySend(_sendBuf);
+                }
+                while (size) {
+                    size = static_cast<std::size_t>(co_await file.read(buf));
+                    if (!size) [[unlikely]] {
+                        /*
+                            \r\n
+                            0\r\n
+                            \r\n
+                        */
+                        // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
+                        _buildToChunkedEncoding<false, true>(0); // 发送完成的版本: \r\n0\r\n\r\n
+                        co_await _io.fullySend(_sendBuf);
+                        break;
+                    }
+                    /*
+                        \r\n
+                        len\r\n
+                        内容片段
+                    */
+                    _buildToChunkedEncoding(size);         // 补充上次的头版本: \r\nlen\r\n
+                    co_await _io.fullySend(_sendBuf);      // 发送
+                    co_await _io.fullySend({buf.data(), size});           // 发送文件
+                }
             }
         } catch (...) {
-            ; // _io.template send 会抛异常
+            err = std::current_exception(); // _io.template send 会抛异常
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err); // 响应不完整, 不能再复用连接
+        }
     }
 
 #if defined(__GNUC__) && !defined(__clang__)
-- 
2.43.0


From e23cea3916f4bf729257880bc7999bdc4483d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 047/102] fix: range requests returned wrong ranges and wrong
 framing

The end of a range could be one past the file, "-N" was the first instead of
the last N bytes, an end beyond the file was refused, an empty file wrapped
around, a 416 had no length, a malformed Range header threw, and a multipart
answer had no length and a CRLF after every 128 KB.
---
 include/HXLibs/net/protocol/http/Response.hpp | 151 ++++++++++++------
 1 file changed, 100 insertions(+), 51 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index e1a5a9a..15e4c54 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -27,6 +27,9 @@
 #include <HXLibs/net/protocol/http/Http.hpp>
 #include <HXLibs/net/protocol/http/Status.hpp>
 #include <HXLibs/net/protocol/http/MimeType.hpp>
+#include <charconv>
+#include <limits>
+
 #include <HXLibs/net/socket/IO.hpp>
 #include <HXLibs/coroutine/task/Task.hpp>
 #include <HXLibs/container/ArrayBuf.hpp>
@@ -475,7 +478,9 @@ public:
             addHeader("Accept-Ranges", "bytes");
             _buildResponseLineAndHeaders();
             co_await _io.fullySend(_sendBuf);
-        } else if (auto it = headMap.find("range"); it != headMap.end()) {
+        } else if (auto it = headMap.find("range");
+            it != headMap.end() && it->second.starts_with("bytes="sv) // 其他单位应该忽略
+        ) {
             // 开始[断点续传]传输, 先发一下头
             /*
                 "HTTP/1.1 206 Partial Content\r\n"
@@ -490,27 +495,27 @@ public:
             // 解析范围, 如果访问不合法, 应该返回416
             std::string_view rangeVals = it->second;
             // Range: bytes=<range-start>-<range-end>
-            auto rangeNumArr = utils::StringUtil::split<std::string>(rangeVals.substr(6), ","sv);
+            // 不合法的范围: 不会报错, 而是忽略!
+            std::vector<std::pair<uint64_t, uint64_t>> rangeNumArr;
+            for (auto range : utils::StringUtil::split<std::string_view>(rangeVals.substr(6), ","sv)) {
+                if (auto res = _parseRange(range, fileSize)) {
+                    rangeNumArr.push_back(*res);
+                }
+            }
             setResLine(Status::CODE_206);
             addHeader("Accept-Ranges", "bytes");
 
-            if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
-                auto [begin, end] = utils::StringUtil::splitAtFirst(rangeNumArr.back(), "-"sv);
-                if (begin.empty()) {
-                    begin += '0';
-                }
-                if (end.empty()) {
-                    end = std::to_string(fileSize - 1);
-                }
-                uint64_t beginPos = std::stoull(begin);
-                uint64_t endPos = std::stoull(end);
-                if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                    // 范围不合法: 返回416, 表示请求错误
-                    setResLine(Status::CODE_416);
-                    _buildResponseLineAndHeaders();
-                    co_await _io.fullySend(_sendBuf);
-                    co_return ;
-                }
+            if (rangeNumArr.empty()) [[unlikely]] {
+                // 范围不合法: 返回416, 表示请求错误
+                setResLine(Status::CODE_416);
+                addHeader("Content-Range", "bytes */" + fileSizeStr);
+                addHeader("Content-Length", "0");
+                _buildResponseLineAndHeaders();
+                co_await _io.fullySend(_sendBuf);
+            } else if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
+                auto [beginPos, endPos] = rangeNumArr.back();
+                auto begin = std::to_string(beginPos);
+                auto end = std::to_string(endPos);
                 uint64_t remaining = endPos - beginPos + 1;
                 addHeader("Content-Range", "bytes " + begin + "-" + end + "/" + fileSizeStr);
                 addHeader("Content-Type", fileType);
@@ -561,40 +566,38 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
+                constexpr auto endBoundary = "--BOUNDARY_STRING--\r\n"sv;
+                // 先组装好每一段的头, 以得到总长度
+                std::vector<std::vector<char>> heads;
+                uint64_t allSize = endBoundary.size();
+                for (auto [beginPos, endPos] : rangeNumArr) {
+                    auto begin = std::to_string(beginPos);
+                    auto end = std::to_string(endPos);
+                    uint64_t remaining = endPos - beginPos + 1;
+                    auto& head = heads.emplace_back();
+                    utils::StringUtil::append(head, "--BOUNDARY_STRING\r\n"sv);
+                    utils::StringUtil::append(head, "Content-Range: bytes "sv);
+                    utils::StringUtil::append(head, begin);
+                    utils::StringUtil::append(head, "-"sv);
+                    utils::StringUtil::append(head, end);
+                    utils::StringUtil::append(head, "/"sv);
+                    utils::StringUtil::append(head, fileSizeStr);
+                    utils::StringUtil::append(head, CRLF);
+                    utils::StringUtil::append(head, "Content-Length: "sv);
+                    utils::StringUtil::append(head, std::to_string(remaining));
+                    utils::StringUtil::append(head, CRLF);
+                    utils::StringUtil::append(head, "Content-Type: application/octet-stream\r\n"sv);
+                    utils::StringUtil::append(head, CRLF);
+                    allSize += head.size() + remaining + CRLF.size();
+                }
                 addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Length", std::to_string(allSize));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
-                for (auto& ragen : rangeNumArr) {
-                    auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
-                    if (begin.empty()) {
-                        begin += '0';
-                    }
-                    if (end.empty()) {
-                        end = std::to_string(fileSize - 1);
-                    }
-                    uint64_t beginPos = std::stoull(begin);
-                    uint64_t endPos = std::stoull(end);
-                    // 范围不合法: 不会报错, 而是忽略!
-                    if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                        continue;
-                    }
-                    _sendBuf.clear();
-
+                for (std::size_t i = 0; i < rangeNumArr.size(); ++i) {
+                    auto [beginPos, endPos] = rangeNumArr[i];
                     uint64_t remaining = endPos - beginPos + 1;
-                    utils::StringUtil::append(_sendBuf, "--BOUNDARY_STRING\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, "Content-Range: bytes "sv);
-                    utils::StringUtil::append(_sendBuf, begin);
-                    utils::StringUtil::append(_sendBuf, "-"sv);
-                    utils::StringUtil::append(_sendBuf, end);
-                    utils::StringUtil::append(_sendBuf, "/"sv);
-                    utils::StringUtil::append(_sendBuf, fileSizeStr);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
-                    utils::StringUtil::append(_sendBuf, std::to_string(remaining));
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.fullySend(_sendBuf); // 先发头
+                    co_await _io.fullySend(heads[i]); // 先发头
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
@@ -614,7 +617,6 @@ public:
                                 break;
                             }
                             co_await _io.fullySend({buf.data(), size});
-                            co_await _io.fullySend(CRLF);
                             remaining -= size;
                         }
                     } catch (...) {
@@ -622,8 +624,9 @@ public:
                         ;
                     }
                     co_await file.close();
+                    co_await _io.fullySend(CRLF);
                 }
-                co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
+                co_await _io.fullySend(endBoundary);
             }
         } else {
             // 普通的传输文件
@@ -797,6 +800,52 @@ private:
     template <typename>
     friend struct ConnectionHandler;
 
+    /**
+     * @brief [仅服务端] 解析一个范围, 如 `0-99`, `100-`, `-100` (最后100字节)
+     * @param range 范围
+     * @param fileSize 文件大小
+     * @return std::optional<std::pair<uint64_t, uint64_t>> [开始位置, 结束位置]; 范围不合法则为 nullopt
+     */
+    static std::optional<std::pair<uint64_t, uint64_t>> _parseRange(
+        std::string_view range,
+        uint64_t fileSize
+    ) {
+        using namespace std::string_view_literals;
+        range = range.substr(std::min(range.find_first_not_of(" \t"sv), range.size()));
+        range = range.substr(0, range.find_last_not_of(" \t"sv) + 1);
+        auto pos = range.find('-');
+        if (pos == std::string_view::npos || range.size() == 1 || !fileSize) [[unlikely]] {
+            return std::nullopt;
+        }
+        auto toNum = [](std::string_view sv, uint64_t def) -> std::optional<uint64_t> {
+            if (sv.empty()) {
+                return def;
+            }
+            if (sv.find_first_not_of("0123456789"sv) != std::string_view::npos) [[unlikely]] {
+                return std::nullopt;
+            }
+            uint64_t num = 0;
+            return std::from_chars(sv.data(), sv.data() + sv.size(), num).ec == std::errc{}
+                ? num : std::numeric_limits<uint64_t>::max(); // 太大了
+        };
+        auto begin = toNum(range.substr(0, pos), 0);
+        auto end = toNum(range.substr(pos + 1), fileSize - 1);
+        if (!begin || !end) [[unlikely]] {
+            return std::nullopt;
+        }
+        if (!pos) { // 最后 end 个字节
+            begin = fileSize - std::min(*end, fileSize);
+            end = fileSize - 1;
+        } else if (*begin > *end) [[unlikely]] {
+            return std::nullopt;
+        }
+        end = std::min(*end, fileSize - 1);
+        if (*begin > *end) [[unlikely]] {
+            return std::nullopt;
+        }
+        return std::pair{*begin, *end};
+    }
+
     /**
      * @brief [仅服务端] 生成响应行和响应头
      */
-- 
2.43.0


From ccec354702f4813535664704e21efea5b25c733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 048/102] fix: a file transfer that failed in the middle left
 the connection in use with a truncated response

---
 include/HXLibs/net/protocol/http/Response.hpp | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 15e4c54..d40129b 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -524,7 +524,8 @@ public:
                 co_await _io.fullySend(_sendBuf); // 先发一个头
                 
                 utils::AsyncFile file{_io};
-                co_await file.open(filePath);
+                co_await file.open(filePath, utils::OpenMode::Read);
+                std::exception_ptr err{};
                 try {
                     file.setOffset(beginPos);
                     std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
@@ -538,15 +539,19 @@ public:
                             )
                         );
                         if (!size) [[unlikely]] {
-                            break;
+                            throw std::runtime_error{"The file has become shorter"};
                         }
                         co_await _io.fullySend({buf.data(), size});
                         remaining -= size;
                     }
                 } catch (...) {
-                    ;
+                    // _io.template send 会抛异常
+                    err = std::current_exception();
                 }
                 co_await file.close();
+                if (err) [[unlikely]] {
+                    std::rethrow_exception(err); // 响应不完整, 不能再复用连接
+                }
             } else {
                 /*
                     HTTP/1.1 206 Partial Content\r\n
@@ -600,7 +605,8 @@ public:
                     co_await _io.fullySend(heads[i]); // 先发头
 
                     utils::AsyncFile file{_io};
-                    co_await file.open(filePath);
+                    co_await file.open(filePath, utils::OpenMode::Read);
+                    std::exception_ptr err{};
                     try {
                         file.setOffset(beginPos);
                         std::vector<char> buf(utils::FileUtils::kBufMaxSize);
@@ -614,16 +620,19 @@ public:
                                 )
                             );
                             if (!size) [[unlikely]] {
-                                break;
+                                throw std::runtime_error{"The file has become shorter"};
                             }
                             co_await _io.fullySend({buf.data(), size});
                             remaining -= size;
                         }
                     } catch (...) {
                         // _io.template send 会抛异常
-                        ;
+                        err = std::current_exception();
                     }
                     co_await file.close();
+                    if (err) [[unlikely]] {
+                        std::rethrow_exception(err); // 响应不完整, 不能再复用连接
+                    }
                     co_await _io.fullySend(CRLF);
                 }
                 co_await _io.fullySend(endBoundary);
@@ -637,25 +646,32 @@ public:
             co_await _io.fullySend(_sendBuf); // 先发一个头
 
             utils::AsyncFile file{_io};
-            co_await file.open(filePath);
+            co_await file.open(filePath, utils::OpenMode::Read);
+            std::exception_ptr err{};
             try {
                 std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
                 uint64_t remaining = fileSize;
                 while (remaining > 0) {
                     std::size_t size = static_cast<std::size_t>(
-                        co_await file.read(buf)
+                        co_await file.read(
+                            buf,
+                            static_cast<uint32_t>(std::min(remaining, buf.size()))
+                        )
                     );
                     if (!size) [[unlikely]] {
-                        break;
+                        throw std::runtime_error{"The file has become shorter"};
                     }
                     co_await _io.fullySend({buf.data(), size});
                     remaining -= size;
                 }
             } catch (...) {
                 // _io.template send 会抛异常
-                ;
+                err = std::current_exception();
             }
             co_await file.close();
+            if (err) [[unlikely]] {
+                std::rethrow_exception(err); // 响应不完整, 不能再复用连接
+            }
         }
     }
 
-- 
2.43.0


From 9aa120a7ac4cc1a5eb96d8f4e3a96ea0ff6cac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 049/102] fix: an accept error ended the server

When accept failed once, e.g. for lack of descriptors, the thread stopped
serving for good, with its socket still listening.
---
 include/HXLibs/net/server/Acceptor.hpp | 31 +++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 2cab310..c5fb727 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -54,14 +54,29 @@ struct Acceptor {
     coroutine::Task<> start(std::atomic_bool const& isRun) {
         auto serverFd = co_await makeServerFd();
         for (;;) [[likely]] {
-            auto fd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop.makeAioTask().prepAccept(
-                    serverFd,
-                    nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
-                    nullptr,
-                    0
-                )
-            ));
+            SocketFdType fd = kInvalidSocket;
+            bool isErr = false;
+            try {
+                fd = HXLIBS_CHECK_EVENT_LOOP((
+                    co_await _eventLoop.makeAioTask().prepAccept(
+                        serverFd,
+                        nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
+                        nullptr,
+                        0
+                    )
+                ));
+            } catch (std::exception const& err) {
+                // 如: 对方已经断开, 文件描述符不足; 不应该因此停止服务
+                log::hxLog.error("接受连接失败:", err.what());
+                isErr = true;
+            }
+            if (isErr) [[unlikely]] {
+                if (!isRun.load(std::memory_order_acquire)) {
+                    break;
+                }
+                co_await _eventLoop.makeTimer().sleepFor(std::chrono::milliseconds{10});
+                continue;
+            }
             log::hxLog.debug("有新的连接:", fd);
             ConnectionHandler<IOType>::template
                 start<Timeout>(fd, isRun, _router, _eventLoop).detach();
-- 
2.43.0


From d2fa857b0ea00d6fba2f0d48b0d3ba88a6248d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 050/102] fix: stopping a server could hang

HttpServer::syncStop() hides the one that tells the threads to stop, and
threads that were just being started were not waited for.
---
 include/HXLibs/net/server/HttpServer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 386c200..c274402 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -142,6 +142,7 @@ public:
         }
         init();
         for (std::size_t i = 0; i < threadNum; ++i) {
+            ++_runNum; // 在线程启动之前计数, 否则此时关闭服务器会认为没有线程在运行
             _threads.emplace_back([this] {
                 _sync<Timeout>();
             });
@@ -193,6 +194,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
@@ -235,7 +237,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
@@ -263,6 +264,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 HttpsClient cli{HttpClientOptions{}};
@@ -307,7 +309,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
-- 
2.43.0


From 127375201479874487c7d3b3fee4a2aae404ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 051/102] fix: destroying a server raced with the thread of
 asyncStop()

---
 include/HXLibs/net/server/HttpServer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index c274402..c51c869 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -165,6 +165,7 @@ public:
 
     ~HttpBaseServer() noexcept {
         syncStop();
+        _asyncStopThread.reset(); // 它使用了之后声明的成员
     }
 
 private:
-- 
2.43.0


From 6dac95c9914719d8a63cef7938d9dedb4d382f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 052/102] fix: fullyRecv() never returned when the peer closed
 the connection

---
 include/HXLibs/net/socket/IO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 244d8cd..8ca703c 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -90,6 +90,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 对方已经关闭
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -337,6 +340,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 对方已经关闭
+            }
             buf = buf.subspan(sent);
         }
     }
-- 
2.43.0


From 3d6ae6d3f12d9463369b6380a8c7f64b8c01cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 053/102] fix: a path segment "**" selected the wildcard before
 a parameter

---
 include/HXLibs/net/router/RouterTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/router/RouterTree.hpp b/include/HXLibs/net/router/RouterTree.hpp
index 5f0e84a..ca817e8 100644
--- a/include/HXLibs/net/router/RouterTree.hpp
+++ b/include/HXLibs/net/router/RouterTree.hpp
@@ -145,6 +145,9 @@ private:
         using namespace std::string_view_literals;
         std::array<std::string_view const, 2> arr{findLink.front(), "*"sv};
         for (auto const findStr : arr) {
+            if (findStr == "**"sv) [[unlikely]] { // 请求路径中的`**`只是普通的内容, 不是通配符
+                continue;
+            }
             if (auto it = node->child.find(findStr); it != node->child.end()) {
                 if (auto* res = _find(findLink.subspan(1), it->second)) {
                     return res;
-- 
2.43.0


From 4369082e2f5f77d9057f2dd50804fd976d915d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 054/102] fix: interceptors of the not-found endpoint did not
 compile

---
 include/HXLibs/net/router/Router.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 51eb963..90cbf83 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -75,12 +75,24 @@ public:
             -> coroutine::Task<> {
             static_cast<void>(this);
             bool ok = true;
-            static_cast<void>((doBefore(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doBeforeAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doBefore(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
             if (ok) {
                 co_await endpoint(req, res);
             }
             ok = true;
-            static_cast<void>((doAfter(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doAfterAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doAfter(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
         };
         _routerTree.setNotFoundHandler(std::move(realEndpoint));
     }
-- 
2.43.0


From d2f3f394caa72251b582ac16a59af8308eb16ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 055/102] fix: file content could contain the fixed delimiter
 of a multi-range response

---
 include/HXLibs/net/protocol/http/Response.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index d40129b..3c10e94 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -28,7 +28,9 @@
 #include <HXLibs/net/protocol/http/Status.hpp>
 #include <HXLibs/net/protocol/http/MimeType.hpp>
 #include <charconv>
+#include <format>
 #include <limits>
+#include <random>
 
 #include <HXLibs/net/socket/IO.hpp>
 #include <HXLibs/coroutine/task/Task.hpp>
@@ -571,7 +573,10 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
-                constexpr auto endBoundary = "--BOUNDARY_STRING--\r\n"sv;
+                // 分隔符不能出现在文件内容里面, 因此每次都随机生成
+                std::random_device rd;
+                auto const boundary = std::format("{:08x}{:08x}{:08x}{:08x}", rd(), rd(), rd(), rd());
+                auto const endBoundary = "--" + boundary + "--\r\n";
                 // 先组装好每一段的头, 以得到总长度
                 std::vector<std::vector<char>> heads;
                 uint64_t allSize = endBoundary.size();
@@ -580,7 +585,7 @@ public:
                     auto end = std::to_string(endPos);
                     uint64_t remaining = endPos - beginPos + 1;
                     auto& head = heads.emplace_back();
-                    utils::StringUtil::append(head, "--BOUNDARY_STRING\r\n"sv);
+                    utils::StringUtil::append(head, "--" + boundary + "\r\n");
                     utils::StringUtil::append(head, "Content-Range: bytes "sv);
                     utils::StringUtil::append(head, begin);
                     utils::StringUtil::append(head, "-"sv);
@@ -595,7 +600,7 @@ public:
                     utils::StringUtil::append(head, CRLF);
                     allSize += head.size() + remaining + CRLF.size();
                 }
-                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Type", "multipart/byteranges; boundary=" + boundary);
                 addHeader("Content-Length", std::to_string(allSize));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
-- 
2.43.0


From 3034b5b5bb7ca70486d647f7d9ff923d66c4b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 056/102] fix: a client that does not read blocked its
 connection and the stop of the server forever

---
 include/HXLibs/net/server/ConnectionHandler.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 641ddf5..ad64a6e 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -26,6 +26,11 @@
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
 
+#if defined(__linux__)
+    #include <netinet/in.h>
+    #include <netinet/tcp.h> // TCP_USER_TIMEOUT
+#endif
+
 #include <HXLibs/log/Log.hpp>
 
 namespace HX::net {
@@ -42,6 +47,12 @@ struct ConnectionHandler {
     ) {
         using namespace std::string_view_literals;
         IOType io{fd, eventLoop};
+#if defined(__linux__)
+        // 对方一直不读取时, 发送也应该超时, 否则连接 (和服务器的关闭) 会被其永远卡住
+        unsigned int const userTimeout = static_cast<unsigned int>(
+            std::chrono::duration_cast<std::chrono::milliseconds>(Timeout::StdChronoVal).count());
+        ::setsockopt(fd, IPPROTO_TCP, TCP_USER_TIMEOUT, &userTimeout, sizeof(userTimeout));
+#endif // !defined(__linux__)
         try {
 #if defined(HXLIBS_ENABLE_SSL)
             if constexpr (std::is_same_v<IOType, HttpsIO>) {            
-- 
2.43.0


From 0af7e7d5f878353c575aad7de159a19b2c490e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 057/102] fix: a server that could not listen leaked its socket

---
 include/HXLibs/net/server/Acceptor.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index c5fb727..0f2c51a 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -110,14 +110,22 @@ private:
         // 造成毫秒级停顿; Linux 上 accept 出的连接会继承监听套接字的该选项
         setsockopt(serverFd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on));
 
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::bind(serverFd, serAddr._addr, serAddr._addrlen)
-        ).expect("bind");
-
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::listen(serverFd, SOMAXCONN)
-        ).expect("listen");
-
+        std::exception_ptr err{};
+        try {
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::bind(serverFd, serAddr._addr, serAddr._addrlen)
+            ).expect("bind");
+
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::listen(serverFd, SOMAXCONN)
+            ).expect("listen");
+        } catch (...) {
+            err = std::current_exception();
+        }
+        if (err) [[unlikely]] {
+            co_await _eventLoop.makeAioTask().prepClose(serverFd);
+            std::rethrow_exception(err);
+        }
         co_return serverFd;
 #elif defined(_WIN32)
         auto serSocket 
-- 
2.43.0


From 49774369e75f8108a898545520e73856ce2229c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 058/102] fix: urls were taken apart wrongly

---
 include/HXLibs/net/protocol/url/UrlParse.hpp  | 224 ++++++++++++------
 include/HXLibs/net/socket/AddressResolver.hpp |   8 +-
 2 files changed, 159 insertions(+), 73 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 032bf0d..9d0aa4d 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -22,7 +22,8 @@
 #include <string_view>
 #include <optional>
 #include <cstdint>
-#include <regex>
+#include <algorithm>
+#include <charconv>
 #include <stdexcept>
 
 #include <HXLibs/container/CHashMap.hpp>
@@ -35,46 +36,111 @@ struct AccountInfo {
 };
 
 struct UrlParse {
+    /**
+     * @brief URL 的各个组成部分, 均是 url 的视图: [scheme://][userInfo@]host[:port][target][#fragment]
+     */
+    struct Parts {
+        std::string_view scheme;    // 协议, 可能为空
+        std::string_view userInfo;  // 用户信息
+        std::string_view host;      // 主机 (IPv6 带方括号), 可能为空
+        std::string_view port;      // 端口, 可能为空
+        std::string_view target;    // 路径 + 查询参数, 可能为空
+        bool hasUserInfo = false;
+    };
+
+    /**
+     * @brief 拆分 URL
+     * @param url 完整的 URL, 或者没有协议的 `host[:port][/path]`, 或者仅仅是 `/path`
+     * @return Parts
+     * @throw 端口或者 IPv6 地址不合法, 则抛出异常
+     */
+    static Parts parse(std::string_view url) {
+        Parts res;
+        auto fail = [&](char const* msg) {
+            throw std::invalid_argument(msg + std::string{": "} + std::string{url});
+        };
+        auto rest = url;
+        if (auto pos = rest.find("://"); pos != std::string_view::npos
+            && rest.substr(0, pos).find_first_not_of(
+                "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-.") == std::string_view::npos
+        ) {
+            res.scheme = rest.substr(0, pos);
+            rest = rest.substr(pos + 3);
+        }
+        auto authority = rest.substr(0, rest.find_first_of("/?#"));
+        res.target = rest.substr(authority.size());
+        res.target = res.target.substr(0, res.target.find('#'));
+        if (auto pos = authority.rfind('@'); pos != std::string_view::npos) {
+            res.hasUserInfo = true;
+            res.userInfo = authority.substr(0, pos);
+            authority = authority.substr(pos + 1);
+        }
+        std::size_t end = 0;
+        if (authority.starts_with('[')) {
+            end = authority.find(']');
+            if (end == std::string_view::npos) [[unlikely]] {
+                fail("Invalid URL format");
+            }
+            ++end;
+        } else {
+            end = std::min(authority.find(':'), authority.size());
+        }
+        res.host = authority.substr(0, end);
+        if (end < authority.size()) {
+            if (authority[end] != ':') [[unlikely]] {
+                fail("Invalid URL format");
+            }
+            res.port = authority.substr(end + 1);
+            if (res.port.find_first_not_of("0123456789") != std::string_view::npos) [[unlikely]] {
+                fail("Invalid URL port");
+            }
+            if (res.port.size()) {
+                toPort(res.port);
+            }
+        }
+        return res;
+    }
+
     /**
      * @brief 从 URL 从提取出 Ptah 
      * @param url 
-     * @return std::string_view Ptah
+     * @return std::string Ptah (包含查询参数, 不包含片段)
      */
-    static std::string_view extractPath(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        std::size_t pathFind = url.find("/",
-            protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
-        return pathFind == std::string_view::npos ? "/" : url.substr(pathFind);
+    static std::string extractPath(std::string_view url) {
+        auto target = parse(url).target;
+        if (target.starts_with('/')) [[likely]] {
+            return std::string{target};
+        }
+        return "/" + std::string{target};
     }
 
     /**
-     * @brief 从 ws URL 提取 Origin (也就是 Path 之前的部分)
+     * @brief 从 ws URL 提取 Origin (也就是 Path 之前的部分, 不含用户信息)
      * @param url 必须包含 `ws://` 或 `wss://`
      * @return std::string
      */
     static std::string extractWsOrigin(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        if (protocolFind == std::string_view::npos) [[unlikely]] {
+        auto parts = parse(url);
+        if (parts.scheme.empty()) [[unlikely]] {
             throw std::runtime_error{"Invalid URL, missing protocol: " + std::string(url)};
         }
 
-        std::string_view protocol = url.substr(0, protocolFind);
-        std::size_t pathFind = url.find("/", protocolFind + 3);
-
-        std::string_view originView = (pathFind == std::string_view::npos) ? url : url.substr(0, pathFind);
-
         // 转协议，生成新字符串
-        std::string originStr(originView);
+        std::string originStr;
 
         // ws / wss 要替换
-        if (protocol == "ws") {
-            originStr.replace(0, 2, "http");
+        if (auto protocol = toLower(parts.scheme); protocol == "ws") {
+            originStr = "http://";
         } else if (protocol == "wss") {
-            originStr.replace(0, 3, "https");
+            originStr = "https://";
         } else {
-            throw std::runtime_error{"Unsupported protocol in URL: " + std::string(protocol)};
+            throw std::runtime_error{"Unsupported protocol in URL: " + std::string(parts.scheme)};
+        }
+        originStr += parts.host;
+        if (parts.port.size()) {
+            originStr += ':';
+            originStr += parts.port;
         }
-
         return originStr;
     }
 
@@ -83,14 +149,32 @@ struct UrlParse {
      * @param url 
      * @return std::string DomainName
      */
-    static std::string extractDomainName(std::string const& url) {
-        std::regex urlRegex(R"([a-zA-Z0-9][-a-zA-Z0-9]{0,62}(\.[a-zA-Z0-9][-a-zA-Z0-9]{0,62})+\.?)");
-        std::smatch urlMatch;
-        if (std::regex_search(url, urlMatch, urlRegex)) {
-            return urlMatch.str();
-        } else {
-            throw std::invalid_argument("Invalid URL format: " + url);
+    static std::string extractDomainName(std::string_view url) {
+        auto host = parse(url).host;
+        for (unsigned char c : host) {
+            if (c <= ' ' || c == 0x7f || std::string_view{"\"<>\\^`{|}"}.find(static_cast<char>(c)) != std::string_view::npos) [[unlikely]] {
+                host = {};
+                break;
+            }
+        }
+        if (host.empty()) [[unlikely]] {
+            throw std::invalid_argument("Invalid URL format: " + std::string{url});
+        }
+        return std::string{host};
+    }
+
+    /**
+     * @brief 从 URL 中提取出 Host 请求头的值: 域名[:端口]
+     * @param url 
+     * @return std::string 
+     */
+    static std::string extractHost(std::string_view url) {
+        auto res = extractDomainName(url);
+        if (auto port = parse(url).port; port.size()) {
+            res += ':';
+            res += port;
         }
+        return res;
     }
 
     /**
@@ -100,12 +184,12 @@ struct UrlParse {
      * @throw 如果提取失败则会抛出异常
      */
     static std::string_view extractProtocol(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        if (protocolFind == std::string_view::npos) {
+        auto protocol = parse(url).scheme;
+        if (protocol.empty()) {
             throw std::invalid_argument("Extract Protocol Error: " 
                 + std::string{url.data(), url.size()});
         }
-        return url.substr(0, protocolFind);
+        return protocol;
     }
 
     /**
@@ -113,21 +197,14 @@ struct UrlParse {
      * @return pair<用户名, 密码>, 如果解析不到, 则返回 std::nullopt
      */
     static std::optional<AccountInfo> extractUser(std::string_view url) {
-        std::size_t findEnd = url.find('@');
-        if (findEnd == std::string_view::npos) {
+        auto parts = parse(url);
+        if (!parts.hasUserInfo) {
             return std::nullopt;
         }
-        std::size_t findMid = url.rfind(':', findEnd - 1);
-        std::size_t findStart = url.rfind('/', findMid - 1);
-        if (findStart == std::string_view::npos) {
-            return std::optional{AccountInfo{
-                url.substr(0, findMid), 
-                url.substr(findMid + 1, findEnd - findMid - 1)
-            }};
-        }
+        auto findMid = parts.userInfo.find(':');
         return std::optional{AccountInfo{
-            url.substr(findStart + 1, findMid - findStart - 1), 
-            url.substr(findMid + 1, findEnd - findMid - 1)
+            parts.userInfo.substr(0, findMid),
+            findMid == std::string_view::npos ? std::string_view{} : parts.userInfo.substr(findMid + 1)
         }};
     }
 
@@ -138,12 +215,8 @@ struct UrlParse {
      * @throw 如果提取失败则会抛出异常
      */
     static std::string removeProtocol(std::string& url) {
-        std::size_t protocolFind = url.find("://");
-        if (protocolFind == std::string::npos) {
-            throw std::invalid_argument("Extract Protocol Error: " + url);
-        }
-        std::string res = url.substr(0, protocolFind);
-        url = url.substr(protocolFind + 3);
+        std::string res{extractProtocol(url)};
+        url = url.substr(res.size() + 3);
         return res;
     }
 
@@ -175,14 +248,34 @@ struct UrlParse {
                 KVPair{"ws", 80},
                 KVPair{"wss", 443}
             );
-        if (auto it = protocolPorts.find(protocol);
+        if (auto it = protocolPorts.find(toLower(protocol));
             it != protocolPorts.end()
         ) {
             return it->second;
         } else [[unlikely]] {
-            return static_cast<uint16_t>(std::stoi(protocol.data())); // 未知协议, 则假设它是端口
+            return toPort(protocol); // 未知协议, 则假设它是端口
         }
     }
+
+private:
+    static std::string toLower(std::string_view sv) {
+        std::string res{sv};
+        for (auto& c : res) {
+            if (c >= 'A' && c <= 'Z') {
+                c = static_cast<char>(c - 'A' + 'a');
+            }
+        }
+        return res;
+    }
+
+    static uint16_t toPort(std::string_view sv) {
+        uint16_t port{};
+        auto [ptr, ec] = std::from_chars(sv.data(), sv.data() + sv.size(), port);
+        if (ec != std::errc{} || ptr != sv.data() + sv.size()) [[unlikely]] {
+            throw std::invalid_argument("Invalid port: " + std::string{sv});
+        }
+        return port;
+    }
 };
 
 /**
@@ -206,27 +299,18 @@ private:
     std::string _service {};
 
     void parseUrl(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        std::size_t userFind = url.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
-        if (userFind == std::string_view::npos)
-            userFind = protocolFind;
-        std::size_t portFind = url.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
-
-        if (protocolFind == std::string_view::npos && portFind == std::string_view::npos) {
-            // 没有协议和端口，默认服务为 "http"
-            _service = "http";
+        _hostname = UrlParse::extractDomainName(url);
+        if (_hostname.starts_with('[')) {
+            _hostname = _hostname.substr(1, _hostname.size() - 2); // IPv6
+        }
+        auto parts = UrlParse::parse(url);
+        if (parts.port.size()) {
+            _service = parts.port;      // 有端口
+        } else if (parts.scheme.size()) {
+            _service = parts.scheme;    // 有协议但没有端口
         } else {
-            if (portFind != std::string_view::npos) {
-                // 有端口，提取端口号
-                std::size_t start = portFind + 1;
-                std::size_t end = url.find_first_not_of("0123456789", start);
-                _service = url.substr(start, end - start);
-            } else if (protocolFind != std::string_view::npos) {
-                // 有协议但没有端口
-                _service = url.substr(0, protocolFind);
-            }
+            _service = "http";          // 没有协议和端口，默认服务为 "http"
         }
-        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
     }
 };
 
diff --git a/include/HXLibs/net/socket/AddressResolver.hpp b/include/HXLibs/net/socket/AddressResolver.hpp
index 8112076..eb274d7 100644
--- a/include/HXLibs/net/socket/AddressResolver.hpp
+++ b/include/HXLibs/net/socket/AddressResolver.hpp
@@ -155,10 +155,11 @@ public:
          * hints: 可以是空指针, 也可以是指向某个 addrinfo 结构体的指针, 包含对所需地址类型的提示
          * result: 该函数通过 result 指针参数返回一个 addrinfo 结构体链表的指针
          */
-        int err = getaddrinfo(name.data(), service.data(), nullptr, &_head);
+        std::string const host{name}, serv{service}; // getaddrinfo 需要以 '\0' 结尾的字符串
+        int err = getaddrinfo(host.c_str(), serv.c_str(), nullptr, &_head);
         if (err) {
             auto ec = std::error_code(err, exception::LinuxErrorHandlingTools::gaiCategory());
-            throw std::system_error(ec, name.data() + std::string{":"} + service.data());
+            throw std::system_error(ec, host + ":" + serv);
         }
         return {_head};
     }
@@ -312,7 +313,8 @@ public:
          * hints: 可以是空指针, 也可以是指向某个 addrinfo 结构体的指针, 包含对所需地址类型的提示
          * result: 该函数通过 result 指针参数返回一个 addrinfo 结构体链表的指针
          */
-        int err = ::getaddrinfo(name.data(), service.data(), nullptr, &_head);
+        std::string const host{name}, serv{service}; // getaddrinfo 需要以 '\0' 结尾的字符串
+        int err = ::getaddrinfo(host.c_str(), serv.c_str(), nullptr, &_head);
         if (err != 0) [[unlikely]] {
             // Windows getaddrinfo 返回的错误码与gai_strerror对应, 但不是errno
             throw std::runtime_error{::gai_strerror(err)};
-- 
2.43.0


From ad7ffc09bff0856f9576c77abbd615d7833aea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 059/102] fix: a chunked upload ended with two terminal chunks

---
 include/HXLibs/net/protocol/http/Request.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index f906f0a..f01af27 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -172,17 +172,22 @@ public:
             buf.resize(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            _buildToChunkedEncoding<true>(size, sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-            for (;;) {
+            if (!size) [[unlikely]] {
+                _buildToChunkedEncoding<true, true>(0, sendBuf); // 空文件
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+            } else {
+                _buildToChunkedEncoding<true>(size, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+            }
+            while (size) {
+                size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
                     _buildToChunkedEncoding<false, true>(0, sendBuf);
                     co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                     break;
                 }
-                size = static_cast<std::size_t>(co_await file.read(buf));
                 _buildToChunkedEncoding(size, sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-- 
2.43.0


From 1c249e1f4079f174245685f996f1abfd77a92681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 060/102] fix: the future of a task dropped by its pool never
 became ready

---
 include/HXLibs/container/FutureResult.hpp |  6 ++++-
 include/HXLibs/container/ThreadPool.hpp   | 31 +++++++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4e55c7d..92edc02 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -87,7 +87,11 @@ private:
         }
 
         void unhandledException() noexcept {
-            _exception = std::current_exception();
+            setException(std::current_exception());
+        }
+
+        void setException(std::exception_ptr exception) noexcept {
+            _exception = std::move(exception);
             ready();
         }
 
diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 2c0c99b..f879c1b 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -65,6 +65,31 @@ inline auto ThreadPoolDefaultStrategy = [](ThreadPoolData const& data) -> int {
     ));
 };
 
+namespace internal {
+
+/**
+ * @brief 任务没有执行就被销毁了, 那么告诉等待者
+ */
+template <typename T>
+struct DropGuard {
+    explicit DropGuard(std::shared_ptr<T> res) noexcept
+        : _res{std::move(res)}
+    {}
+
+    DropGuard(DropGuard&&) noexcept = default;
+
+    ~DropGuard() noexcept {
+        if (_res) [[unlikely]] {
+            _res->setException(std::make_exception_ptr(
+                std::runtime_error{"ThreadPool: The task was dropped"}));
+        }
+    }
+
+    std::shared_ptr<T> _res;
+};
+
+} // namespace internal
+
 struct ThreadPool {
     enum class Model {
         FixedSizeAndNoCheck, // 不检查, 并且为恒定大小
@@ -128,9 +153,10 @@ struct ThreadPool {
         FutureResult<Res> res;
         res.via(this);
         auto cb = [func = std::move(func), 
-                   ans = res.getFutureResult(),
+                   guard = internal::DropGuard{res.getFutureResult()},
                    argWap = makePreserveTuple(std::forward<Args>(args)...)
         ]() mutable {
+            auto ans = std::move(guard._res);
             try {
                 if constexpr (std::is_void_v<Res>) {
                     moveApply(std::move(func), std::move(argWap));
@@ -388,8 +414,9 @@ std::conditional_t<
         res.via(dispatch);
         dispatch->addTask([self = std::move(*this),
                            _func = std::forward<Func>(func),
-                           ans = res.getFutureResult()](
+                           guard = internal::DropGuard{res.getFutureResult()}](
         ) mutable noexcept {
+            auto ans = std::move(guard._res);
             using InArgType = typename FutureResult<T>::ArgTryType; // func 参数类型, Try<RemoveTryWarpType<T>>
             Uninitialized<InArgType> data;
             try {
-- 
2.43.0


From 5d33607aef7d26f1c02ea078eac4e209ed68adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 061/102] fix: the client kept using dead, wrong or half-read
 connections

---
 include/HXLibs/net/client/HttpClient.hpp      | 404 ++++++++++--------
 include/HXLibs/net/client/HttpClientPool.hpp  |  51 ++-
 include/HXLibs/net/protocol/http/Response.hpp |  80 +++-
 3 files changed, 348 insertions(+), 187 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index be7f313..3b8933f 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -33,6 +33,10 @@
 
 #include <HXLibs/log/Log.hpp> // debug
 
+#include <memory>
+#include <mutex>
+#include <optional>
+
 /**
  * @todo 还有问题: 如果客户端断线了, 我怎么检测到他是断线了?
  * @note 无法通过通知检测, 只能在读/写的时候发现
@@ -74,8 +78,9 @@ public:
         // https://github.com/HengXin666/HXLibs/issues/14
         // 并发时候可能会对fd并发. 多个不同任务不可能共用流式缓冲区.
         // 所以, 使用线程池仅需要的是一个任务队列, 和一个任务线程.
-        _pool.setFixedThreadNum(1);
-        _pool.run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
+        _pool = std::make_unique<container::ThreadPool>();
+        _pool->setFixedThreadNum(1);
+        _pool->run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
     }
 
     /**
@@ -86,6 +91,13 @@ public:
         _isAutoReconnect = isAutoReconnect;
     }
 
+    /**
+     * @brief 等待已经提交到后台的任务全部完成
+     */
+    void waitIdle() {
+        _pool->addTask([] {}).wait(); // 仅一个任务线程, 先进先出
+    }
+
     /**
      * @brief 判断是否需要重新建立连接
      * @return true
@@ -120,7 +132,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this,
+        return _pool->addTask([this,
                               _url = std::move(url),
                               _path = std::move(path),
                               _contentType = contentType,
@@ -153,8 +165,8 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
-                co_await makeSocket(url);
+            if (needConnect() || isOtherEndpoint(url)) {
+                co_await makeSocket<Timeout>(url);
             }
             container::Try<> err{};
             Request req{_io.get()};
@@ -163,36 +175,28 @@ public:
             req.addHeaders(std::move(headers));
             try {
                 co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
-                }
-                co_await res.template parseBody<Timeout>();
-                co_return res.makeResponseData();
+                co_return co_await recvRes<Method, Timeout>(req);
             } catch (...) {
-                ;
+                err.setException(std::current_exception());
             }
             // 二次尝试
-            try {
-                co_await makeSocket(url);
-                // 再次发送
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
+            if (_isAutoReconnect) [[likely]] {
+                try {
+                    co_await makeSocket<Timeout>(url);
+                    // 再次发送
+                    co_await req.template sendChunkedReq<Timeout>(path);
+                    co_return co_await recvRes<Method, Timeout>(req);
+                } catch (...) {
+                    err.setException(std::current_exception());
                 }
-                co_return res.makeResponseData();
-            } catch (...) {
-                err.setException(std::current_exception());
             }
             // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             err.rethrow();
             co_return {};
         };
         if (_isUniqueEventLoop) {
-            co_return _eventLoop->trySync(task());
+            co_return _trySync(task());
         }
         co_return co_await _eventLoop->tryAsync(task());
     }
@@ -314,9 +318,9 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url),
-                              _body = std::move(body), _headers = std::move(headers),
-                              contentType] {
+        return _pool->addTask([this, _url = std::move(url),
+                              _body = std::string{std::forward<Str>(body)}, _headers = std::move(headers),
+                              contentType]() mutable {
             return coRequest<Method>(
                 std::move(_url), std::move(_headers),
                 std::move(_body), contentType, Timeout{}
@@ -346,22 +350,22 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
-                co_await makeSocket(url);
+            if (needConnect() || isOtherEndpoint(url)) {
+                co_await makeSocket<Timeout>(url);
             }
             co_return co_await sendReq<Method>(
                 std::move(url),
-                std::move(body),
+                std::forward<Str>(body),
                 contentType,
                 std::move(headers),
                 timeout
             );
         };
         // co_return _isUniqueEventLoop
-        //     ? _eventLoop->trySync(task())
+        //     ? _trySync(task())
         //     : co_await _eventLoop->tryAsync(task());
         if (_isUniqueEventLoop) {
-            co_return _eventLoop->trySync(task());
+            co_return _trySync(task());
         }
         co_return co_await _eventLoop->tryAsync(task());
     }
@@ -373,13 +377,10 @@ public:
      */
     coroutine::Task<container::Try<>> coConnect(std::string_view url) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await coClose();
-            }
-            co_await makeSocket(url);
+            co_await makeSocket<decltype(30_s)>(url);
         };
         if (_isUniqueEventLoop) {
-            co_return _eventLoop->trySync(task());
+            co_return _trySync(task());
         }
         co_return co_await _eventLoop->tryAsync(task());
     }
@@ -397,7 +398,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url)](){
+        return _pool->addTask([this, _url = std::move(url)](){
             return coConnect(_url).runSync();
         });
     }
@@ -407,7 +408,8 @@ public:
      */
     void close() {
         if (_isUniqueEventLoop) {
-            _eventLoop->trySync(coClose());
+            // 等待其他线程上正在执行的任务
+            _trySync(coClose());
             return;
         }
 #ifndef NDEBUG
@@ -416,7 +418,9 @@ public:
             throw std::runtime_error{"Please call coClose() first"};
         }
 #endif // !NDEBUG
-        _io.get().reset();
+        if (_io.isAvailable()) {
+            _io.get().reset();
+        }
     }
 
     /**
@@ -426,7 +430,9 @@ public:
      */
     coroutine::Task<> coClose() noexcept {
         if (_cliFd == kInvalidSocket) {
-            _io.get().reset();
+            if (_io.isAvailable()) {
+                _io.get().reset();
+            }
             co_return;
         }
         co_await _io.get().close();
@@ -461,7 +467,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url),
+        return _pool->addTask([this, _url = std::move(url),
                               _func = std::forward<Func>(func), _headers = std::move(headers)]() mutable {
             return coWsLoop(
                 std::move(_url),
@@ -494,8 +500,8 @@ public:
     ) {
         container::Try<Res> res;
         auto taskObj = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await makeSocket(url);
+            if (needConnect() || isOtherEndpoint(url)) {
+                co_await makeSocket<Timeout>(url);
             }
             container::Uninitialized<WebSocketClient<IOType>> ws;
             try {
@@ -509,7 +515,7 @@ public:
                 // 之前的连接断开了, 再次尝试连接
                 if (_isAutoReconnect) [[likely]] {
                     // 重新建立连接
-                    co_await makeSocket(url);
+                    co_await makeSocket<Timeout>(url);
                     try {
                         ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(url, _io.get(), headers));
                         res.reset();
@@ -532,15 +538,14 @@ public:
                 }
             }
             // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
         };
         auto taskMain = taskObj();
-        if (_isUniqueEventLoop) {
-            _eventLoop->start(taskMain);
-            _eventLoop->run();
-        } else {
-            co_await taskMain;
+        auto err = _isUniqueEventLoop
+            ? _trySync(std::move(taskMain))
+            : co_await _eventLoop->tryAsync(std::move(taskMain));
+        if (!err) [[unlikely]] {
+            res.setException(err.exception()); // 无法建立连接
         }
         co_return res;
     }
@@ -561,8 +566,8 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await makeSocket(url);
+            if (needConnect() || isOtherEndpoint(url)) {
+                co_await makeSocket<Timeout>(url);
             }
             Request req{_io.get()};
             req.template setReqLine<Method>(UrlParse::extractPath(url));
@@ -576,37 +581,32 @@ public:
             }
             std::exception_ptr exceptionPtr{};
             try {
-                bool isOkFd = true;
+                std::optional<Response> res;
                 try {
                     co_await req.template sendHttpReq<Timeout>();
+                    res.emplace(_io.get());
+                    if (!co_await res->template parserResHead<Timeout>()) [[unlikely]] {
+                        throw std::runtime_error{"Recv Timed Out"};
+                    }
                 } catch (...) {
                     // e: 大概率是 断开的管道, 直接重连
-                    isOkFd = false;
+                    exceptionPtr = std::current_exception();
                 }
-                Response res{_io.get()};
-                do {
-                    try {
-                        // 可能会抛异常...
-                        if (isOkFd && co_await res.template parserResHead<Timeout>()) {
-                            break;
-                        }
-                    } catch (...) {
-                        ;
+                if (exceptionPtr) [[unlikely]] {
+                    if (!_isAutoReconnect) [[unlikely]] {
+                        std::rethrow_exception(exceptionPtr);
                     }
-                    // 读取超时
-                    if (_isAutoReconnect) [[likely]] {
-                        // 重新建立连接
-                        co_await makeSocket(url);
-                        // 重新发送一次请求
-                        co_await req.template sendHttpReq<Timeout>();
-                        // 再次解析请求
-                        if (co_await res.template parserResHead<Timeout>()) [[likely]] {
-                            break;
-                        }
+                    // 重新建立连接
+                    co_await makeSocket<Timeout>(url);
+                    // 重新发送一次请求
+                    co_await req.template sendHttpReq<Timeout>();
+                    // 再次解析响应
+                    res.emplace(_io.get());
+                    if (!co_await res->template parserResHead<Timeout>()) [[unlikely]] {
+                        throw std::runtime_error{"Send Timed Out"};
                     }
-                    [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-                } while (false);
-                for (auto seeLoop = res.template parserSseStrem<Timeout>(); ;) {
+                }
+                for (auto seeLoop = res->template parserSseStrem<Timeout>(); ;) {
                     co_await std::forward<Func>(func)(co_await seeLoop);
                 }
             } catch (...) {
@@ -615,12 +615,11 @@ public:
 
             log::hxLog.error("超时断开 SSE"); // debug
 
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             std::rethrow_exception(exceptionPtr);
         };
         if (_isUniqueEventLoop) {
-            co_return _eventLoop->trySync(task());
+            co_return _trySync(task());
         }
         co_return co_await _eventLoop->tryAsync(task());
     }
@@ -629,73 +628,139 @@ public:
 
 #ifdef NDEBUG
     ~HttpBaseClient() noexcept {
+        _pool.reset(); // 先等待正在执行的任务
         close();
     }
 #else
     ~HttpBaseClient() noexcept(false) {
+        _pool.reset(); // 先等待正在执行的任务
         close();
     }
 #endif // !NDEBUG
 private:
     /**
-     * @brief 建立 TCP 连接
-     * @param url
+     * @brief 在独享的事件循环上运行协程, 同一时间只能有一个线程使用它
+     */
+    template <typename T>
+    auto _trySync(T&& task) {
+        std::lock_guard _{_mtx};
+        return _eventLoop->trySync(std::move(task));
+    }
+
+    /**
+     * @brief 判断 url 所指的服务器, 是否与当前连接的不是同一个
+     */
+    bool isOtherEndpoint(std::string_view url) const {
+        return UrlParse::parse(url).host.size() && makeEndpoint(url) != _endpoint;
+    }
+
+    static std::string makeEndpoint(std::string_view url) {
+        UrlInfoExtractor parser{url};
+        return std::string{parser.getHostname()} + ' '
+            + std::to_string(UrlParse::getProtocolPort(parser.getService()));
+    }
+
+    /**
+     * @brief 建立 TCP 连接, 会断开之前的连接
+     * @param url 如果仅为路径, 则连接到上一次的服务器
      * @return coroutine::Task<>
+     * @throw 无法建立连接
      */
+    template <typename Timeout>
     coroutine::Task<> makeSocket(std::string_view url) {
+        co_await coClose();
+        if (UrlParse::parse(url).host.size() || _url.empty()) {
+            _endpoint = makeEndpoint(url);
+            _url = url;
+        }
         AddressResolver resolver;
-        UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : url};
-        auto entry = resolver.resolve(parser.getHostname(), parser.getService());
-        try {
-            _cliFd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop->makeAioTask().prepSocket(
-                    entry._curr->ai_family,
-                    entry._curr->ai_socktype,
-                    entry._curr->ai_protocol,
-                    0
-                )
-            ));
+        UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : _url};
+        auto entry = resolver.resolve(
+            parser.getHostname(),
+            std::to_string(UrlParse::getProtocolPort(parser.getService()))
+        );
+        SocketFdType fd = kInvalidSocket;
+        std::exception_ptr exceptionPtr{};
+        do {
+            if (entry._curr->ai_socktype != SOCK_STREAM) {
+                continue;
+            }
             try {
+                fd = HXLIBS_CHECK_EVENT_LOOP((
+                    co_await _eventLoop->makeAioTask().prepSocket(
+                        entry._curr->ai_family,
+                        entry._curr->ai_socktype,
+                        entry._curr->ai_protocol,
+                        0
+                    )
+                ));
                 auto sockaddr = entry.getAddress();
-                co_await _eventLoop->makeAioTask().prepConnect(
-                    _cliFd,
-                    sockaddr._addr,
-                    sockaddr._addrlen
+#if defined(__linux__)
+                auto res = co_await coroutine::AioTask::linkTimeout(
+                    _eventLoop->makeAioTask().prepConnect(
+                        fd, sockaddr._addr, sockaddr._addrlen
+                    ),
+                    _eventLoop->makeAioTask().prepLinkTimeout(
+                        internal::getTimePtr<Timeout>(), 0)
                 );
-                auto isInit = _io.isAvailable();
-                if (!isInit) {
-                    _io.set(_cliFd, *_eventLoop);
-                } else {
-                    co_await _io.get().bindNewFd(_cliFd);
+                if (res.index() == 1) [[unlikely]] {
+                    throw std::runtime_error{"Connect Timed Out"};
                 }
-                if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
-                    // 初始化代理
-                    if (_options.proxy.get().size()) {
-                        Proxy proxy{_io.get()};
-                        co_await proxy.connect(_options.proxy.get(), url);
-                    }
+                HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+                );
+#else
+                co_await _eventLoop->makeAioTask().prepConnect(
+                    fd, sockaddr._addr, sockaddr._addrlen
+                );
+#endif
+                _cliFd = fd;
+                break;
+            } catch (...) {
+                exceptionPtr = std::current_exception();
+            }
+            if (fd != kInvalidSocket) {
+                co_await _eventLoop->makeAioTask().prepClose(fd);
+                fd = kInvalidSocket;
+            }
+        } while (entry.nextEntry());
+        if (needConnect()) [[unlikely]] {
+            log::hxLog.error("连接失败");
+            std::rethrow_exception(exceptionPtr);
+        }
+        exceptionPtr = nullptr;
+        try {
+            [[maybe_unused]] auto isInit = _io.isAvailable();
+            if (!isInit) {
+                _io.set(_cliFd, *_eventLoop);
+            } else {
+                co_await _io.get().bindNewFd(_cliFd);
+            }
+            if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
+                // 初始化代理
+                if (_options.proxy.get().size()) {
+                    Proxy proxy{_io.get()};
+                    co_await proxy.connect(_options.proxy.get(), _url);
                 }
+            }
 #ifdef HXLIBS_ENABLE_SSL
-                if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                    if (!isInit) {
-                        _io.get().initSslBio(SslContext::SslType::Client);
-                    } else {
-                        _io.get().resetSslBio();
-                    }
-                    // 初始化连接 (Https 握手)
-                    co_await _io.get().template initSsl<decltype(10_s)>(false);
+            if constexpr (std::is_same_v<IOType, HttpsIO>) {
+                if (!isInit) {
+                    _io.get().initSslBio(SslContext::SslType::Client);
+                } else {
+                    _io.get().resetSslBio();
                 }
-#endif // !HXLIBS_ENABLE_SSL
-                co_return;
-            } catch (...) {
-                log::hxLog.error("连接失败");
+                // 初始化连接 (Https 握手)
+                co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
-        } catch (std::exception const& e) {
-            log::hxLog.error("创建套接字失败:", e.what());
+#endif // !HXLIBS_ENABLE_SSL
+            co_return;
+        } catch (...) {
+            exceptionPtr = std::current_exception();
         }
-        // 总之得关闭
-        co_await _eventLoop->makeAioTask().prepClose(_cliFd);
-        _cliFd = kInvalidSocket;
+        log::hxLog.error("连接失败");
+        co_await coClose();
+        std::rethrow_exception(exceptionPtr);
     }
 
     /**
@@ -730,54 +795,50 @@ private:
         }
         std::exception_ptr exceptionPtr{};
         try {
-            bool isOkFd = true;
+            co_await req.template sendHttpReq<Timeout>();
+            co_return co_await recvRes<Method, Timeout>(req);
+        } catch (...) {
+            // e: 大概率是 断开的管道, 直接重连
+            exceptionPtr = std::current_exception();
+        }
+        if (_isAutoReconnect) [[likely]] {
             try {
+                // 重新建立连接
+                co_await makeSocket<Timeout>(url);
+                // 重新发送一次请求
                 co_await req.template sendHttpReq<Timeout>();
+                // 再次解析响应
+                co_return co_await recvRes<Method, Timeout>(req);
             } catch (...) {
-                // e: 大概率是 断开的管道, 直接重连
-                isOkFd = false;
-            }
-            Response res{_io.get()};
-            do {
-                try {
-                    // 可能会抛异常...
-                    if (isOkFd && co_await res.template parserRes<Timeout>()) {
-                        break;
-                    }
-                } catch (...) {
-                    ;
-                }
-                // 读取超时
-                if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
-                    // 重新发送一次请求
-                    co_await req.template sendHttpReq<Timeout>();
-                    // 再次解析请求
-                    if (co_await res.template parserRes<Timeout>()) [[likely]] {
-                        break;
-                    }
-                }
-                [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-            } while (false);
-            if (auto it = req.getHeaders().find("Connection");
-                it != req.getHeaders().end() && it->second == "close"
-            ) {
-                co_await _io.get().close();
-                _cliFd = kInvalidSocket;
+                exceptionPtr = std::current_exception();
             }
-            co_return res.makeResponseData();
-        } catch (...) {
-            exceptionPtr = std::current_exception();
         }
 
         log::hxLog.error("解析出错"); // debug
 
-        co_await _io.get().close();
-        _cliFd = kInvalidSocket;
+        co_await coClose();
         std::rethrow_exception(exceptionPtr);
     }
 
+    /**
+     * @brief 读取响应, 如果连接不再可用, 则断开
+     * @throw 超时或者响应不完整
+     */
+    template <HttpMethod Method, typename Timeout>
+    coroutine::Task<ResponseData> recvRes(Request& req) {
+        using namespace std::string_view_literals;
+        Response res{_io.get()};
+        if (!co_await res.template parserRes<Timeout>(Method == HEAD)) [[unlikely]] {
+            throw std::runtime_error{"Recv Timed Out"};
+        }
+        if (auto it = req.getHeaders().find("Connection"); !res.isKeepAlive()
+            || (it != req.getHeaders().end() && internal::hasToken(it->second, "close"sv))
+        ) {
+            co_await coClose();
+        }
+        co_return res.makeResponseData();
+    }
+
     /**
      * @brief 预处理请求头
      * @param url
@@ -785,7 +846,7 @@ private:
      */
     void preprocessHeaders(std::string const& url, HttpContentType contentType, Request& req) {
         try {
-            auto host = UrlParse::extractDomainName(url);
+            auto host = UrlParse::extractHost(url);
             req.tryAddHeaders("Host", host);
             _host = std::move(host);
         } catch ([[maybe_unused]] std::exception const& e) {
@@ -796,19 +857,28 @@ private:
         req.tryAddHeaders("Accept", "*/*");
         req.tryAddHeaders("Connection", "keep-alive");
         req.tryAddHeaders("User-Agent", "HXLibs/1.0");
-        req.tryAddHeaders("Content-Type", getContentTypeStrView(contentType));
+        if (contentType != HttpContentType::None) {
+            req.tryAddHeaders("Content-Type", getContentTypeStrView(contentType));
+        }
         req.tryAddHeaders("Date", utils::DateTimeFormat::makeHttpDate());
     }
 
     HttpClientOptions<Proxy> _options;
     std::shared_ptr<coroutine::EventLoop> _eventLoop;
     SocketFdType _cliFd;
-    container::ThreadPool _pool;
+    std::unique_ptr<container::ThreadPool> _pool;
     container::Uninitialized<IOType> _io;
 
     // 上一次解析的 Host
     std::string _host;
 
+    // 当前连接的 url 和其服务器 (主机 + 端口)
+    std::string _url;
+    std::string _endpoint;
+
+    // 独享的事件循环, 同一时间只能有一个线程使用
+    std::recursive_mutex _mtx;
+
     // 是否自动重连
     bool _isAutoReconnect;
 
diff --git a/include/HXLibs/net/client/HttpClientPool.hpp b/include/HXLibs/net/client/HttpClientPool.hpp
index b51dc6d..6977d1d 100644
--- a/include/HXLibs/net/client/HttpClientPool.hpp
+++ b/include/HXLibs/net/client/HttpClientPool.hpp
@@ -18,7 +18,9 @@
  * limitations under the License.
  */
 
+#include <memory>
 #include <mutex>
+#include <vector>
 
 #include <HXLibs/net/client/HttpClient.hpp>
 
@@ -46,14 +48,20 @@ public:
         if (newSize <= 0) [[unlikely]] {
             throw std::runtime_error{"HttpClientPool: Size must be at least 1"};
         }
-        std::unique_lock _{_mtx};
-        if (newSize <= _cliPool.size()) {
-            _cliPool.resize(newSize);
-        } else {
-            for (std::size_t i = _cliPool.size(); i <= newSize; ++i) {
+        std::vector<std::unique_ptr<HttpClientType>> delCli;
+        {
+            std::unique_lock _{_mtx};
+            while (_cliPool.size() > newSize) {
+                delCli.emplace_back(std::move(_cliPool.back()));
+                _cliPool.pop_back();
+            }
+            for (std::size_t i = _cliPool.size(); i < newSize; ++i) {
                 _cliPool.emplace_back(std::make_unique<HttpClientType>(options));
             }
         }
+        for (auto& cli : delCli) {
+            cli->waitIdle(); // 已经提交的请求, 不能丢失
+        }
     }
 
     /**
@@ -62,7 +70,7 @@ public:
      */
     std::size_t getIdxAndNext() noexcept {
         std::unique_lock _{_mtx};
-        return ++_index %= _cliPool.size();
+        return _getIdxAndNext();
     }
 
     /**
@@ -77,7 +85,8 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template get<Timeout>(
+        std::unique_lock _{_mtx}; // 防止提交时候, 客户端被 resize() 删除
+        return _cliPool.at(_getIdxAndNext())->template get<Timeout>(
             std::move(url), std::move(headers)
         );
     }
@@ -97,7 +106,8 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template post<Timeout>(
+        std::unique_lock _{_mtx}; // 防止提交时候, 客户端被 resize() 删除
+        return _cliPool.at(_getIdxAndNext())->template post<Timeout>(
             std::move(url), std::move(body),
             contentType, std::move(headers)
         );
@@ -124,7 +134,8 @@ public:
         HttpContentType contentType = HttpContentType::None,
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template requst<Method, Timeout>(
+        std::unique_lock _{_mtx}; // 防止提交时候, 客户端被 resize() 删除
+        return _cliPool.at(_getIdxAndNext())->template request<Method, Timeout>(
             std::move(url),
             std::move(headers),
             std::forward<Str>(body),
@@ -152,7 +163,8 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template wsLoop<Timeout>(
+        std::unique_lock _{_mtx}; // 防止提交时候, 客户端被 resize() 删除
+        return _cliPool.at(_getIdxAndNext())->template wsLoop<Timeout>(
             std::move(url), std::forward<Func>(func), std::move(headers)
         );
     }
@@ -174,23 +186,30 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template uploadChunked<Method, Timeout>(
+        std::unique_lock _{_mtx}; // 防止提交时候, 客户端被 resize() 删除
+        return _cliPool.at(_getIdxAndNext())->template uploadChunked<Method, Timeout>(
             std::move(url), std::move(path),
             contentType, std::move(headers)
         );
     }
 
     /**
-     * @brief 断开连接
-     * @return container::FutureResult<> 
+     * @brief 断开所有连接
      */
-    container::FutureResult<> close() {
-        return _cliPool.at(getIdxAndNext())->close();
+    void close() {
+        std::unique_lock _{_mtx};
+        for (auto& cli : _cliPool) {
+            cli->close();
+        }
     }
 private:
+    std::size_t _getIdxAndNext() noexcept {
+        return ++_index %= _cliPool.size();
+    }
+
     std::vector<std::unique_ptr<HttpClientType>> _cliPool;
     std::mutex _mtx;
-    std::uint64_t _index;
+    std::size_t _index{};
 };
 
 template <typename Proxy>
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3c10e94..8b22e53 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -173,11 +173,43 @@ public:
     HttpResponse& operator=(HttpResponse&&) noexcept = delete;
 #endif
     // ===== ↓客户端使用↓ =====
+    /**
+     * @brief 解析服务端响应
+     * @tparam Timeout 超时时间
+     * @param isHeadReq 是否为 HEAD 请求的响应 (没有正文)
+     * @return coroutine::Task<bool> 是否解析完毕 
+     */
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<bool> parserRes() {
-        co_return co_await parserResHead<Timeout>()
-               && co_await parseBody<Timeout>();
+    coroutine::Task<bool> parserRes(bool isHeadReq = false) {
+        using namespace std::string_view_literals;
+        if (!co_await parserResHead<Timeout>()) [[unlikely]] {
+            co_return false;
+        }
+        if (isHeadReq || getStatusCode() == "204"sv || getStatusCode() == "304"sv) {
+            co_return true; // 没有正文
+        }
+        if (!_responseHeaders.contains(CONTENT_LENGTH_SV)
+            && !_responseHeaders.contains(TRANSFER_ENCODING_SV)
+        ) {
+            co_return co_await _parseBodyToClose<Timeout>();
+        }
+        co_return co_await parseBody<Timeout>();
+    }
+
+    /**
+     * @brief 响应解析完毕后, 连接是否还可以继续使用
+     */
+    bool isKeepAlive() const {
+        using namespace std::string_view_literals;
+        if (_isBodyToClose || _recvBuf.size()) {
+            return false; // 正文以断开连接为结尾; 或者有多余的数据
+        }
+        auto it = _responseHeaders.find(CONNECTION_SV);
+        if (getProtocolVersion() == "HTTP/1.0"sv) {
+            return it != _responseHeaders.end() && internal::hasToken(it->second, "keep-alive"sv);
+        }
+        return it == _responseHeaders.end() || !internal::hasToken(it->second, "close"sv);
     }
 
     /**
@@ -188,7 +220,7 @@ public:
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserResHead()) {
+        for (std::size_t n = _parserResHead(); n; n = _parserResHead()) {
             if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
                 throw std::runtime_error{"Http head is too large"};
             }
@@ -773,6 +805,7 @@ public:
         _sendBuf.clear();
         _completeResponseHeader = false;
         _completeBody = false;
+        _isBodyToClose = false;
     }
 
     /**
@@ -810,6 +843,7 @@ private:
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
+    bool _isBodyToClose = false;                    // 响应体是否以断开连接为结尾
     bool _isHeadReq = false;                        // [仅服务端] 是否为 HEAD 请求的响应 (没有响应体)
 
     template <typename>
@@ -966,6 +1000,8 @@ private:
                     );
                     if (_statusLine.size() < 2
                         || !internal::isHttpVersion(_statusLine[ResponseLineDataType::ProtocolVersion])
+                        || _statusLine[ResponseLineDataType::StatusCode].size() != 3
+                        || _statusLine[ResponseLineDataType::StatusCode].find_first_not_of("0123456789"sv) != std::string::npos
                     ) [[unlikely]] {
                         throw std::runtime_error{"Bad http status line"};
                     }
@@ -997,6 +1033,14 @@ private:
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
                     if (subKVStr.empty()) { // 请求头解析完毕!
+                        if (auto code = getStatusCode(); code.starts_with('1') && code != "101"sv) {
+                            // 临时响应 (如 100 Continue), 忽略; 继续解析真正的响应
+                            _recvBuf.moveToHead(buf.substr(pos + 2));
+                            _statusLine.clear();
+                            _responseHeaders.clear();
+                            _responseHeadersIt = _responseHeaders.end();
+                            return _parserResHead();
+                        }
                         _completeResponseHeader = true;
                     } else {
                         internal::parseHeaderLine(_responseHeaders, _responseHeadersIt, subKVStr);
@@ -1026,6 +1070,34 @@ private:
         return internal::parseBody(_responseHeaders, _recvBuf, _remainingBodyLen, _body);
     }
 
+    /**
+     * @brief [[仅客户端]] 解析以断开连接为结尾的 Body
+     * @return 是否解析完毕; false 为超时
+     */
+    template <typename Timeout>
+        requires(utils::HasTimeNTTP<Timeout>)
+    coroutine::Task<bool> _parseBodyToClose() {
+        _markBodyParsed();
+        _isBodyToClose = true;
+        for (;;) {
+            _body.append(_recvBuf.data(), _recvBuf.size());
+            _recvBuf.clear();
+            auto res = co_await _io.template recvLinkTimeout<Timeout>(
+                {_recvBuf.data(), _recvBuf.data() + _recvBuf.max_size()}
+            );
+            if (res.index() == 1) [[unlikely]] {
+                co_return false; // 超时
+            }
+            auto recvN = HXLIBS_CHECK_EVENT_LOOP(
+                (res.template get<0, exception::ExceptionMode::Nothrow>())
+            );
+            if (recvN == 0) {
+                co_return true;
+            }
+            _recvBuf.addSize(static_cast<std::size_t>(recvN));
+        }
+    }
+
     /**
      * @brief 确认是否已经解析过 body, 如果解析过了, 就抛出异常; 否则置为 _completeBody = true
      */
-- 
2.43.0


From df491a479b78d3defeb34da66f4e236de561fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 062/102] fix: server-sent events were lost or altered

---
 include/HXLibs/net/protocol/http/Response.hpp | 116 ++++++++++--------
 1 file changed, 66 insertions(+), 50 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 8b22e53..aa215b2 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -52,23 +52,6 @@ class HttpResponse;
 
 namespace internal {
 
-inline void fromSse(std::string& v, std::string_view sv) {
-    if (v.size()) {
-        v += '\n';
-    }
-    v += sv;
-}
-
-inline void fromSse(std::optional<std::string>& v, std::string_view sv) {
-    v.emplace(sv);
-}
-
-inline void fromSse(std::optional<std::chrono::milliseconds>& v, std::string_view sv) {
-    uint64_t ms{};
-    reflection::Numer::fromNumer<uint64_t>(ms, sv);
-    v.emplace(ms);
-}
-
 template <typename IOType>
 class SseStream {
 public:
@@ -86,13 +69,13 @@ public:
         using namespace std::string_view_literals;
         auto& io = _res.getIO();
         if (event.event.size()) {
-            co_await sendStr("event:"sv, event.event);
+            co_await sendStr("event: "sv, event.event);
         }
-        if (event.data.size()) {
-            co_await sendStr("data:"sv, event.data);
+        if (event.data.size() || event.event.size()) {
+            co_await sendStr("data: "sv, event.data);
         }
         if (event.id) {
-            co_await sendStr("id:"sv, *event.id);
+            co_await sendStr("id: "sv, *event.id);
         }
         if (event.retry) {
             co_await io.fullySend("retry:"sv);
@@ -299,6 +282,23 @@ public:
         // 进行 SSE 解析, 只有 TCP close 才是 SSE 结束, 因为它默认不会结束. 需用户协议好 [done] data
         SseEvent event;
         for (;;) {
+            // 缓冲区中可能已经有事件了
+            bool isEnd = false;
+            if (_responseHeaders.contains(CONTENT_LENGTH_SV)
+             || _responseHeaders.contains(TRANSFER_ENCODING_SV)
+            ) {
+                isEnd = !_parserReqBody();
+            } else {
+                _body.append(_recvBuf.data(), _recvBuf.size());
+                _recvBuf.clear();
+            }
+            while (_parserSseStrem(event)) {
+                co_yield std::move(event);
+                event = {};
+            }
+            if (isEnd) [[unlikely]] {
+                throw std::runtime_error{"parseBody: End of stream"};
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + _recvBuf.max_size()}
@@ -315,10 +315,6 @@ public:
                 throw std::runtime_error{"parseBody: Connection is Broken"};
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
-            while (_parserSseStrem(event)) {
-                co_yield std::move(event);
-                new (&event)SseEvent;
-            }
         }
         co_return std::move(event);
     }
@@ -844,6 +840,8 @@ private:
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
     bool _isBodyToClose = false;                    // 响应体是否以断开连接为结尾
+    bool _isSseData = false;                        // 当前 SSE 事件是否有数据行
+    bool _isSseCr = false;                          // 上一个 SSE 换行是否为 \r
     bool _isHeadReq = false;                        // [仅服务端] 是否为 HEAD 请求的响应 (没有响应体)
 
     template <typename>
@@ -1116,7 +1114,7 @@ private:
      */
     bool _parserSseStrem(SseEvent& sse) {
         using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
+        std::string_view buf{_body};
         /*
         data: xxxx\n
         data:yyyy\n
@@ -1125,37 +1123,55 @@ private:
         da... // 未读取(传输)完全, 需要继续解析
               // 如果:后面有一个空格, 会吃掉
         */
-        for (auto pos = buf.find('\n');
+        for (auto pos = buf.find_first_of("\r\n"sv);
             pos != std::string_view::npos;
-            pos = buf.find('\n')
+            pos = buf.find_first_of("\r\n"sv)
         ) {
-            // now line is: [0, pos)
-            auto skPos = buf.find(':');
-            if (skPos >= pos) {
+            // now line is: [0, pos), 换行可以是 \r\n 或 \n 或 \r
+            auto line = buf.substr(0, pos);
+            auto const isCr = buf[pos] == '\r';
+            auto const isSkip = _isSseCr && !isCr && line.empty();
+            _isSseCr = isCr;
+            buf = buf.substr(pos + 1); // 跳过 \n
+            if (isSkip) {
+                continue; // \r\n 的 \n
+            }
+            if (line.empty()) {
                 // 说明本行是 \n
-                _recvBuf.moveToHead(buf.substr(1)); // 跳过 \n
-                return sse;
+                if (_isSseData || sse) {
+                    _isSseData = false;
+                    _body.erase(0, _body.size() - buf.size());
+                    return true;
+                }
+                continue;
             }
-            auto key = buf.substr(0, skPos);
-            if (key.size()) { // 仅 \n
-                static const auto mp = reflection::makeNameToIdxVariantHashMap<SseEvent>();
-                if (auto it = mp.find(key); it != mp.end()) {
-                    std::visit([&](auto&& idx) constexpr {
-                        using PtrType = typename meta::RemoveCvRefType<decltype(idx)>::Type*;
-                        auto ptr = reinterpret_cast<PtrType>(
-                            reinterpret_cast<char*>(&sse) + idx.offset
-                        );
-                        auto val = buf.substr(skPos + 1, pos - skPos - 1);
-                        if (val.front() == ' ') {
-                            val = val.substr(1);
-                        }
-                        internal::fromSse(*ptr, val);
-                    }, it->second);
+            auto skPos = line.find(':');
+            auto key = line.substr(0, skPos);
+            auto val = skPos == std::string_view::npos ? ""sv : line.substr(skPos + 1);
+            if (val.starts_with(' ')) {
+                val = val.substr(1);
+            }
+            if (key == "data"sv) {
+                if (_isSseData) {
+                    sse.data += '\n'; // 多行数据
+                }
+                _isSseData = true;
+                sse.data += val;
+            } else if (key == "event"sv) {
+                sse.event = val;
+            } else if (key == "id"sv) {
+                sse.id.emplace(val);
+            } else if (key == "retry"sv) {
+                int64_t ms = 0;
+                auto const end = val.data() + val.size();
+                if (val.size() && val.find_first_not_of("0123456789"sv) == std::string_view::npos
+                    && std::from_chars(val.data(), end, ms).ec == std::errc{}
+                ) {
+                    sse.retry.emplace(ms);
                 }
             }
-            buf = buf.substr(pos + 1); // 跳过 \n
         }
-        _recvBuf.moveToHead(buf);
+        _body.erase(0, _body.size() - buf.size());
         return false;
     }
 
-- 
2.43.0


From f5e2f0c24074595bb243e6c7f328570295c10399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 063/102] fix: the stream of server-sent events did not end
 when its handler returned

---
 include/HXLibs/net/protocol/http/Response.hpp   | 2 ++
 include/HXLibs/net/server/ConnectionHandler.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index aa215b2..21c066f 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -718,6 +718,8 @@ public:
         addHeader("Content-Type", "text/event-stream");
         // 生成响应行和响应头
         _buildResponseLineAndHeaders();
+        // 没有正文长度, 以断开连接为结尾
+        _isBodyToClose = true;
         // 先发送一版, 告知我们是 SseStream
         co_await _io.fullySend(_sendBuf);
         co_return internal::SseStream<IOType>{*this};
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index ad64a6e..570fcd6 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -77,6 +77,7 @@ struct ConnectionHandler {
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
                         (it != req.getHeaders().end() && internal::hasToken(it->second, "close"sv))
+                        || res._isBodyToClose // SSE
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
-- 
2.43.0


From 101968084981a4d77beb3bbc3c1ff69de480ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 064/102] fix: requests by path after connect() lacked a Host
 header

---
 include/HXLibs/net/client/HttpClient.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 3b8933f..c8a3148 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -672,6 +672,7 @@ private:
         if (UrlParse::parse(url).host.size() || _url.empty()) {
             _endpoint = makeEndpoint(url);
             _url = url;
+            _host = UrlParse::extractHost(url);
         }
         AddressResolver resolver;
         UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : _url};
-- 
2.43.0


From 2817188056ec19ca649f6611f55762ee8c1f5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 065/102] fix: websocket frames arriving in pieces or cut short

A frame head that arrived as single byte was used half-read, bytes left over
from the handshake could be popped from an empty buffer, a closed connection
was taken for a timeout, a stall inside a frame was waited for forever, and the
length announced by the peer was allocated before any of it had arrived.
---
 .../net/protocol/websocket/WebSocket.hpp      | 137 +++++++++---------
 1 file changed, 70 insertions(+), 67 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..f03d22d 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -391,48 +391,39 @@ private:
     // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
     std::vector<char> _recvBuf;
 
+    // 是否正在读取一个帧 (如果中途出错, 则不能再继续读取)
+    bool _isInFrame = false;
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
-     * @brief 读取
+     * @brief 读取一些数据 (至少一个字节)
      * @tparam Timeout 超时时间
-     * @tparam Res
-     * > 
+     * @return 读取到的字节数, 如果超时则返回 std::nullopt
+     * @throw 连接已断开, 或者出错
      */
-    template <typename Timeout, typename Res = 
-#if defined(__linux__)
-    coroutine::WhenAnyReturnType<
-        coroutine::AioTask,
-        decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))
-    >
-#elif defined(_WIN32)
-    container::UninitializedNonVoidVariant<int, void> // 只能固定返回值
-#else
-    // 暂时不支持该操作系统
-    #error "Unsupported operating system"
-#endif // !defined(__linux__)
-    >
+    template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
+    coroutine::Task<std::optional<std::size_t>> recvSome(std::span<char> buf) {
+        if (_recvBuf.size()) [[unlikely]] {
+            std::size_t const n = std::min(_recvBuf.size(), buf.size());
+            for (char& c : buf.subspan(0, n)) {
                 c = _recvBuf.back();
                 _recvBuf.pop_back();
             }
-            if (size >= buf.size()) {
-                Res res;
-                res.template emplace<0>(static_cast<
-                    coroutine::AwaiterReturnType<coroutine::AioTask>
-                >(buf.size()));
-                co_return res;
-            }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
-        } else {
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
+            co_return n;
+        }
+        auto res = co_await _io.template recvLinkTimeout<Timeout>(buf);
+        if (res.index() == 1) [[unlikely]] {
+            co_return std::nullopt; // 超时
+        }
+        auto n = HXLIBS_CHECK_EVENT_LOOP(
+            (res.template get<0, exception::ExceptionMode::Nothrow>())
+        );
+        if (n == 0) [[unlikely]] {
+            throw std::runtime_error{"Connection is Broken"}; // 对方已经关闭
         }
+        co_return static_cast<std::size_t>(n);
     }
 
     /**
@@ -441,34 +432,43 @@ private:
      * @tparam T 
      * @return coroutine::Task<T> 
      */
-    template <typename T>
+    template <typename Timeout, typename T>
     coroutine::Task<T> recvStruct() {
         T res;
-        co_await fullyRecv(std::span<char>{
+        co_await fullyRecv<Timeout>(std::span<char>{
             reinterpret_cast<char*>(&res), sizeof(T)
         });
         co_return res;
     }
-    
 
     /**
      * @brief 完全读取
      * @param buf 
-     * @return coroutine::Task<> 
+     * @throw 超时, 连接已断开, 或者出错
      */
+    template <typename Timeout>
     coroutine::Task<> fullyRecv(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                co_return;
+        while (!buf.empty()) {
+            auto n = co_await recvSome<Timeout>(buf);
+            if (!n) [[unlikely]] {
+                throw std::runtime_error{"Read Timeout"}; // 帧的中途超时
             }
-            co_await _io.fullyRecv(buf.subspan(size));
-        } else {
-            co_await _io.fullyRecv(buf);
+            buf = buf.subspan(*n);
+        }
+    }
+
+    /**
+     * @brief 读取帧的内容, 追加到 content 的末尾
+     * @note 长度是由对方声明的, 因此仅随着实际到达的数据而增长
+     */
+    template <typename Timeout>
+    coroutine::Task<> recvPayload(std::string& content, std::size_t len) {
+        while (len) {
+            std::size_t const pos = content.size();
+            std::size_t const n = std::min(len, std::max(pos, IOType::kBufMaxSize));
+            content.resize(pos + n);
+            co_await fullyRecv<Timeout>({content.data() + pos, n});
+            len -= n;
         }
     }
 
@@ -538,14 +538,18 @@ private:
         // 记录第一帧数据内容
         OpCode firstOpCode{OpCode::Unknown};
         do {
-            auto res = co_await recvLinkTimeout<Timeout>(
-                std::span<char>{reinterpret_cast<char*>(head), 2});
-            if (res.index() == 1 
-             || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
-            ) [[unlikely]] {
-                // 超时 或者 出错
+            if (_isInFrame) [[unlikely]] {
+                // 之前在帧的中途出错了, 已经无法得知下一帧的开始
+                throw std::runtime_error{"Connection is Broken"};
+            }
+            std::span<char> headBuf{reinterpret_cast<char*>(head), 2};
+            auto headN = co_await recvSome<Timeout>(headBuf);
+            if (!headN) [[unlikely]] {
+                // 超时
                 co_return std::nullopt;
             }
+            _isInFrame = true;
+            co_await fullyRecv<Timeout>(headBuf.subspan(*headN));
             uint8_t head0 = head[0];
             uint8_t head1 = head[1];
 
@@ -593,12 +597,16 @@ private:
             // 解析包的长度
             std::size_t payloadLen;
             if (payloadLen8 == 0x7E) {
-                uint16_t payloadLen16 = co_await recvStruct<uint16_t>();
+                uint16_t payloadLen16 = co_await recvStruct<Timeout, uint16_t>();
                 payloadLen16 = utils::ByteUtils::byteswapIfLittle(payloadLen16);
                 payloadLen = static_cast<std::size_t>(payloadLen16);
             } else if (payloadLen8 == 0x7F) {
-                uint64_t payloadLen64 = co_await recvStruct<uint64_t>();
+                uint64_t payloadLen64 = co_await recvStruct<Timeout, uint64_t>();
                 payloadLen64 = utils::ByteUtils::byteswapIfLittle(payloadLen64);
+                if (payloadLen64 >> 63) [[unlikely]] {
+                    // 协议规定最高位必须为 0
+                    throw std::runtime_error{"Protocol Error"};
+                }
                 if constexpr (sizeof(uint64_t) > sizeof(std::size_t)) {
                     if (payloadLen64 > std::numeric_limits<std::size_t>::max()) {
                         throw std::runtime_error{
@@ -611,31 +619,26 @@ private:
             }
 
             if constexpr (IsServer) {
+                std::size_t const pos = packet.content.size();
                 // 获取掩码
                 uint8_t maskKeyArr[4];
-                co_await fullyRecv(std::span<char>{
+                co_await fullyRecv<Timeout>(std::span<char>{
                     reinterpret_cast<char*>(maskKeyArr),
                     4
                 });
     
                 // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
+                co_await recvPayload<Timeout>(packet.content, payloadLen);
     
-                const std::size_t len = tmp.size();
-                auto* p = reinterpret_cast<uint8_t*>(tmp.data());
-                for (std::size_t i = 0; i != len; ++i) {
+                auto* p = reinterpret_cast<uint8_t*>(packet.content.data()) + pos;
+                for (std::size_t i = 0; i != payloadLen; ++i) {
                     p[i] ^= maskKeyArr[i % 4];
                 }
-                packet.content += std::move(tmp);
             } else {
                 // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
+                co_await recvPayload<Timeout>(packet.content, payloadLen);
             }
+            _isInFrame = false;
         } while (!fin);
         packet.opCode = firstOpCode;
         co_return packet;
-- 
2.43.0


From 4493e6cbacf2afbddd976c04b00a1ad6db2f8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 066/102] fix: control frames between the fragments of a
 websocket message corrupted it

The message was returned as a control frame with both payloads joined. A message
starting with a continuation frame and frames with reserved bits were accepted.
---
 .../net/protocol/websocket/WebSocket.hpp      | 48 ++++++++++++-------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f03d22d..543becc 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -394,6 +394,9 @@ private:
     // 是否正在读取一个帧 (如果中途出错, 则不能再继续读取)
     bool _isInFrame = false;
 
+    // 正在接收的消息 (分片)
+    WebSocketPacket _fragment{OpCode::Unknown};
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
@@ -493,7 +496,6 @@ private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<std::optional<WebSocketPacket>> recvPacket() {
-        WebSocketPacket packet;
         uint8_t head[2];
 /*
    0               1               2               3
@@ -535,8 +537,6 @@ private:
         // 记录是否为最后一个分片
         bool fin;
 
-        // 记录第一帧数据内容
-        OpCode firstOpCode{OpCode::Unknown};
         do {
             if (_isInFrame) [[unlikely]] {
                 // 之前在帧的中途出错了, 已经无法得知下一帧的开始
@@ -556,8 +556,13 @@ private:
             // 解析 FIN, 为 0 标识当前为最后一个包
             fin = (head0 >> 7);
 
+            if (head0 & 0x70) [[unlikely]] {
+                // 没有协商扩展, RSV1 ~ RSV3 必须为 0
+                throw std::runtime_error{"Protocol Error"};
+            }
+
             // 解析 OpCode
-            packet.opCode = static_cast<OpCode>(head0 & 0x0F);
+            OpCode const opCode = static_cast<OpCode>(head0 & 0x0F);
             
             // 求 MASK 如果非协议要求, 则是协议错误, 应该断开连接
             bool mask = head1 & 0x80;
@@ -567,18 +572,21 @@ private:
             }
 
             uint8_t payloadLen8 = head1 & 0x7F;
-            if (static_cast<uint8_t>(packet.opCode) <= 2) {
+            // 是否为控制帧: 它们可能出现在消息的分片之间
+            bool const isControl = static_cast<uint8_t>(opCode) >= 8;
+            if (static_cast<uint8_t>(opCode) <= 2) {
                 // 合法的数据帧
-                if (firstOpCode == OpCode::Unknown) [[likely]] {
+                if (_fragment.opCode == OpCode::Unknown) [[likely]] {
                     // 第一包必然是这里
-                    firstOpCode = packet.opCode;
-                } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
+                    if (opCode == OpCode::Cont) [[unlikely]] {
+                        throw std::runtime_error{"Fragmentation Error: OpCode == Cont"};
+                    }
+                    _fragment.opCode = opCode;
+                } else if (opCode != OpCode::Cont) [[unlikely]] {
                     // 分片情况下
                     throw std::runtime_error{"Fragmentation Error: OpCode != Cont"};
                 }
-            } else if (static_cast<uint8_t>(packet.opCode) >= 8 
-                    && static_cast<uint8_t>(packet.opCode) <= 10
-            ) {
+            } else if (isControl && static_cast<uint8_t>(opCode) <= 10) {
                 // 控制帧, 必须满足:
                 if (!fin) [[unlikely]] {
                     throw std::runtime_error{
@@ -588,11 +596,12 @@ private:
                     throw std::runtime_error{
                         "Control frame too big"};
                 }
-                firstOpCode = packet.opCode;
             } else [[unlikely]] {
                 // 其他保留值, 非法
                 throw std::runtime_error{"Unknown OpCode"};
             }
+            WebSocketPacket control{opCode};
+            std::string& content = isControl ? control.content : _fragment.content;
 
             // 解析包的长度
             std::size_t payloadLen;
@@ -619,7 +628,7 @@ private:
             }
 
             if constexpr (IsServer) {
-                std::size_t const pos = packet.content.size();
+                std::size_t const pos = content.size();
                 // 获取掩码
                 uint8_t maskKeyArr[4];
                 co_await fullyRecv<Timeout>(std::span<char>{
@@ -628,20 +637,23 @@ private:
                 });
     
                 // 解析数据
-                co_await recvPayload<Timeout>(packet.content, payloadLen);
+                co_await recvPayload<Timeout>(content, payloadLen);
     
-                auto* p = reinterpret_cast<uint8_t*>(packet.content.data()) + pos;
+                auto* p = reinterpret_cast<uint8_t*>(content.data()) + pos;
                 for (std::size_t i = 0; i != payloadLen; ++i) {
                     p[i] ^= maskKeyArr[i % 4];
                 }
             } else {
                 // 解析数据
-                co_await recvPayload<Timeout>(packet.content, payloadLen);
+                co_await recvPayload<Timeout>(content, payloadLen);
             }
             _isInFrame = false;
+            if (isControl) [[unlikely]] {
+                // 不影响未接收完毕的分片
+                co_return control;
+            }
         } while (!fin);
-        packet.opCode = firstOpCode;
-        co_return packet;
+        co_return std::exchange(_fragment, WebSocketPacket{OpCode::Unknown});
     }
 
     /**
-- 
2.43.0


From 9b8453d04d1c7b4f19bfb7f2ad968d40e2adeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 067/102] fix: a pong or a message around a keep-alive ping
 ended the websocket

An unsolicited pong was an error; while waiting for the pong only one message,
and none of the alternative type, could arrive without being lost.
---
 .../net/protocol/websocket/WebSocket.hpp      | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 543becc..23d6470 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -250,26 +250,27 @@ public:
     template <bool TimeoutIsError = false, typename Timeout = DefaultPPTimeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<WebSocketPacket> recv(OpCode recvType, OpCode alternative = OpCode::Unknown) {
+        // 是否已经发送 ping, 但是还没有收到对方的任何帧
+        bool isPing = false;
         for (;;) {
-            auto res = co_await recvPacket<Timeout>();
+            std::optional<WebSocketPacket> res;
+            if (isPing) [[unlikely]] {
+                res = co_await recvPacket<DefaultPPTimeout>();
+            } else {
+                res = co_await recvPacket<Timeout>();
+            }
             if (!res) [[unlikely]] {
-                if constexpr (TimeoutIsError) {
+                if (TimeoutIsError || isPing) [[unlikely]] {
                     // 读取超时
                     throw std::runtime_error{"Read Timeout"};
-                } else {
-                    // 第一次超时就 ping, 然后尝试读取 pong
-                    co_await ping();
-                    // 如果 pong 超时, 就是异常了!
-                    auto res = co_await recv<true>(OpCode::Pong, recvType);
-                    if (res.opCode == recvType) [[unlikely]] {
-                        // 特别的: 如果此时 之前 recv 的数据到了, 那么继续把这次的 OpCode::Pong 接收
-                        co_await recv<true>(OpCode::Pong);
-                        co_return res;
-                    }
-                    // 没有超时就继续等待数据然后读取
-                    continue;
                 }
-            } else if ((*res).opCode == OpCode::Ping) {
+                // 第一次超时就 ping, 如果之后仍没有任何响应, 就是异常了!
+                co_await ping();
+                isPing = true;
+                continue;
+            }
+            isPing = false;
+            if ((*res).opCode == OpCode::Ping) {
                 co_await pong(std::move(*res).content);
                 continue;
             } else if ((*res).opCode == OpCode::Close) [[unlikely]] {
@@ -277,6 +278,9 @@ public:
                 // 对方主动关闭连接: 安全关闭
                 throw std::runtime_error{"Connection Closed OK: 1000"};
             } else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {
+                if ((*res).opCode == OpCode::Pong) {
+                    continue; // 是 ping 的响应 (或者对方的单向心跳)
+                }
                 // 读取的不是期望的类型
                 throw std::runtime_error{"The type read is not the expected type"};
             }
-- 
2.43.0


From 6a20edec8ed8f4cfb3969e36263acf1d8f71e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 068/102] fix: closing a websocket sent the close frame twice

and gave up at the first message still on its way from the peer.
---
 .../net/protocol/websocket/WebSocket.hpp      | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 23d6470..d30fb40 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -274,7 +274,9 @@ public:
                 co_await pong(std::move(*res).content);
                 continue;
             } else if ((*res).opCode == OpCode::Close) [[unlikely]] {
-                co_await resClose(std::move(*res).content);
+                if (!std::exchange(_isClose, true)) {
+                    co_await resClose(std::move(*res).content);
+                }
                 // 对方主动关闭连接: 安全关闭
                 throw std::runtime_error{"Connection Closed OK: 1000"};
             } else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {
@@ -353,19 +355,25 @@ public:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> close() {
+        if (_isClose) {
+            co_return; // 已经响应过对方的关闭
+        }
+        _isClose = true;
         // 发送断线协商
         co_await send(OpCode::Close);
 
-        // 等待
-        auto res = co_await recvPacket<DefaultPPTimeout>();
-
-        if (!res || res->opCode != OpCode::Close) [[unlikely]] {
-            // 超时 或者 协议非期望
-            co_return ; // 那我假设已经完成了
+        // 等待对方的响应, 在此之前对方可能还有未接收的数据
+        auto const end = std::chrono::steady_clock::now() + DefaultPPTimeout::StdChronoVal;
+        try {
+            while (std::chrono::steady_clock::now() < end) {
+                auto res = co_await recvPacket<DefaultPPTimeout>();
+                if (!res || res->opCode == OpCode::Close) {
+                    break;
+                }
+            }
+        } catch (...) {
+            ; // 对方已经断开 或者 协议非期望, 那我假设已经完成了
         }
-
-        // 再次发送, 确定断线
-        co_await send(OpCode::Close);
     }
 
     /**
@@ -398,6 +406,9 @@ private:
     // 是否正在读取一个帧 (如果中途出错, 则不能再继续读取)
     bool _isInFrame = false;
 
+    // 是否已经发送关闭帧
+    bool _isClose = false;
+
     // 正在接收的消息 (分片)
     WebSocketPacket _fragment{OpCode::Unknown};
 
-- 
2.43.0


From 233c76ebbf13d666ff9f2138ccf4946775ad20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 069/102] fix: websocket handshakes of conforming peers were
 refused

Upgrade and Connection are case-insensitive lists, the client sent no Host, and
a request without a key got no response at all.
---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index d30fb40..718ea44 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -788,7 +788,7 @@ public:
      * @return coroutine::Task<WebSocket> 
      */
     coroutine::Task<WebSocketServer<IOType>> accept() && {
-        using namespace std::string_literals;
+        using namespace std::string_view_literals;
         auto const& headMap = _req.getHeaders();
         if (headMap.find("origin") == headMap.end()) {
             // Origin字段是必须的
@@ -799,7 +799,7 @@ public:
             throw std::runtime_error{"The client is missing the origin field"};
         }
         if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
+            it == headMap.end() || !internal::hasToken(it->second, "websocket"sv)
         ) [[unlikely]] {
             // 创建 WebSocket 连接失败
             co_await _res.setResLine(Status::CODE_400)
@@ -808,7 +808,7 @@ public:
         }
         if (auto it = headMap.find("connection");
             // 可能是 "keep-alive, Upgrade" 这种情况
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
+            it == headMap.end() || !internal::hasToken(it->second, "upgrade"sv)
         ) [[unlikely]] {
             co_await _res.setResLine(Status::CODE_416)
                         .sendRes();
@@ -817,6 +817,8 @@ public:
         auto wsKey = headMap.find("sec-websocket-key");
         if (wsKey == headMap.end()) [[unlikely]] {
             // 在标头中找不到 sec-websocket-key
+            co_await _res.setResLine(Status::CODE_400)
+                        .sendRes();
             throw std::runtime_error{"Not Find sec-websocket-key in headers"};
         }
 
@@ -857,6 +859,7 @@ public:
         auto key = internal::randomBase64();
         req.template setReqLine<WS>(UrlParse::extractPath(url))
            .addHeaders("Origin", UrlParse::extractWsOrigin(url))
+           .addHeaders("Host", UrlParse::extractHost(url))
            .addHeaders("Connection", "Upgrade")
            .addHeaders("Upgrade", "websocket")
            .addHeaders("Sec-WebSocket-Key", key)
@@ -880,13 +883,13 @@ public:
         auto const& headMap = res.getHeaders();
         if (auto it = headMap.find("connection");
             // 仅要求包含 Upgrade 即可
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
+            it == headMap.end() || !internal::hasToken(it->second, "upgrade"sv)
         ) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Connection header invalid)"};
         }
         if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
+            it == headMap.end() || !internal::hasToken(it->second, "websocket"sv)
         ) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Upgrade header invalid)"};
-- 
2.43.0


From 04900011ee05e1dad19230c2de96e61c1f693e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 070/102] fix: websocket frames sent right behind the handshake
 were lost

The server took over the buffer of the response instead of the request's, and
went on reading http requests when the endpoint had returned.
---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 718ea44..41653d9 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -828,13 +828,15 @@ public:
                     .addHeader("Sec-Websocket-Accept", 
                                internal::webSocketSecretHash(wsKey->second))
                     .sendRes();
+        // 之后不再是 Http, 端点结束时应该断开连接
+        _res._isBodyToClose = true;
 
         co_return {_res._io, [&]{
             // 缓存迁移
             std::vector<char> buf;
-            std::size_t n = _res._recvBuf.size();
+            std::size_t n = _req._recvBuf.size();
             buf.resize(n);
-            auto* data = _res._recvBuf.data();
+            auto* data = _req._recvBuf.data();
             for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
                 buf[i] = data[j];
             }
-- 
2.43.0


From 316fba6c31a4ca7b4b55486ff37ca2d1a3a82e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 071/102] fix: 1xx, 204 and 304 responses were sent with a body

which the client takes for the start of the next response.
---
 include/HXLibs/net/protocol/http/Response.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 21c066f..c18e616 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -964,13 +964,17 @@ private:
         using namespace std::string_view_literals;
         _sendBuf.clear();
         _buildResponseLineAndHeaders<false>();
-        // 补充这个
-        utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
-        utils::StringUtil::append(_sendBuf, std::to_string(_body.size()));
-        utils::StringUtil::append(_sendBuf, CRLF);
+        std::string_view const code = _statusLine[ResponseLineDataType::StatusCode];
+        bool const isNoLength = code.starts_with('1') || code == "204"sv;
+        if (!isNoLength) [[likely]] {
+            // 补充这个
+            utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
+            utils::StringUtil::append(_sendBuf, std::to_string(_body.size()));
+            utils::StringUtil::append(_sendBuf, CRLF);
+        }
 
         utils::StringUtil::append(_sendBuf, CRLF);
-        if (!_isHeadReq) [[likely]] {
+        if (!_isHeadReq && !isNoLength && code != "304"sv) [[likely]] { // 它们没有响应体
             utils::StringUtil::append(_sendBuf, std::move(_body));
         }
     }
-- 
2.43.0


From dda4028f426a98c79d4e440d1bff3febf8d092a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 072/102] fix: reading JSON into an object kept and appended to
 its old values

---
 include/HXLibs/reflection/json/JsonRead.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index be5a527..38f5e71 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -294,6 +294,7 @@ struct FromJson {
                 && (*(it + 3) & Mask) == 'L'
         ) {
             it += 4;
+            t.reset(); // 不保留旧值
             return;
         }
         if constexpr (meta::IsOptionalVal<T>) {
@@ -313,6 +314,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字符串
         verify<'"'>(it, end);
+        t.clear(); // 不保留旧值
         while (it != end) {
             if (*it == '"') [[unlikely]] {
                 ++it;
@@ -333,6 +335,7 @@ struct FromJson {
     static void fromJson(T& t, It&& it, It&& end) {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
+        t.clear(); // 不保留旧值
 
         skipWhiteSpace(it, end);
         if (*it == ']') [[unlikely]] {
@@ -429,6 +432,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字典 {}
         verify<'{'>(it, end);
+        t.clear(); // 不保留旧值
 
         skipWhiteSpace(it, end);
         if (*it == '}') [[unlikely]] {
-- 
2.43.0


From 5dc5d23340933a2fdeb38324435ea7b00c0d3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 073/102] fix: a cipher with a key of the wrong length leaked
 its context

---
 include/HXLibs/net/token/tools/Aes256Gcm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/token/tools/Aes256Gcm.hpp b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
index 003781a..3eb620e 100644
--- a/include/HXLibs/net/token/tools/Aes256Gcm.hpp
+++ b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
@@ -38,6 +38,7 @@ public:
                reinterpret_cast<const unsigned char*>(key.data()) + key.size()}
     {
         if (key.size() != KeyLen) [[unlikely]] {
+            ::EVP_CIPHER_CTX_free(_ctx);
             throw std::runtime_error("AES-256-GCM key size must be 32 bytes");
         }
 
-- 
2.43.0


From 6d984d123c07b75daef17b94630845b15596142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 074/102] fix: socks5 proxies: replies were not read, or read
 with the length of the request

---
 .../HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 80 ++++++++++++++++---
 1 file changed, 69 insertions(+), 11 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 036a998..ce67712 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -37,6 +37,36 @@ public:
         co_await socks5ConnectRequest(targetUrl);
     }
 private:
+    /**
+     * @brief 完整发送
+     * @throw 超时或者断开
+     */
+    coroutine::Task<> send(std::span<char const> buf) {
+        using namespace HX::utils;
+        co_await _io.sendLinkTimeout<decltype(10_s)>(buf);
+    }
+
+    /**
+     * @brief 完整读取
+     * @throw 超时或者断开
+     */
+    coroutine::Task<> recv(std::span<char> buf) {
+        using namespace HX::utils;
+        while (!buf.empty()) {
+            auto res = co_await _io.recvLinkTimeout<decltype(10_s)>(buf);
+            if (res.index() == 1) [[unlikely]] {
+                throw std::runtime_error{"Proxy Timed Out"};
+            }
+            auto n = static_cast<std::size_t>(HXLIBS_CHECK_EVENT_LOOP(
+                (res.template get<0, exception::ExceptionMode::Nothrow>())
+            ));
+            if (n == 0) [[unlikely]] {
+                throw std::runtime_error{"Proxy closed the connection"};
+            }
+            buf = buf.subspan(n);
+        }
+    }
+
     /**
      * @brief 子协商
      * @param username 
@@ -47,6 +77,10 @@ private:
         std::string_view username, 
         std::string_view password
     ) {
+        if (username.size() > 255 || password.size() > 255) [[unlikely]] {
+            throw std::invalid_argument("sub-negotiation: username or password is too long");
+        }
+
         // 发送用户名密码进行验证
         std::string authRequest;
         authRequest += static_cast<char>(0x01);
@@ -54,10 +88,10 @@ private:
         authRequest += username;
         authRequest += static_cast<char>(password.size());
         authRequest += password;
-        co_await _io.fullySend(authRequest);
+        co_await send(authRequest);
 
         char authResponse[2];
-        co_await _io.fullySend(authResponse);
+        co_await recv(authResponse);
         if (authResponse[1] != 0x00) {
             throw std::invalid_argument("sub-negotiation: REP is " + std::to_string(authResponse[1]));
         }
@@ -74,11 +108,11 @@ private:
             0x01, // 客户端支持的方法数量 (决定 METHODS 的长度)
             static_cast<char>(authentication ? 0x02 : 0x00)  // 不进行用户名密码验证
         };
-        co_await _io.fullySend(handshakeRequest);
+        co_await send(handshakeRequest);
 
         // 解析服务端响应
         char handshakeResponse[2];
-        co_await _io.fullyRecv(handshakeResponse);
+        co_await recv(handshakeResponse);
         if (handshakeResponse[0] != 0x05                           // 协议版本 (需要一致)
          || handshakeResponse[1] != (authentication ? 0x02 : 0x00) // 服务端选择的可用方法
         ) [[unlikely]] {
@@ -134,14 +168,18 @@ private:
          *      - 域名 (unsigned char []) (可变长度)
          */
         UrlInfoExtractor parser(targetUrl);
+        if (parser.getHostname().size() > 255) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: hostname is too long");
+        }
         connectRequest += static_cast<char>(parser.getHostname().size());
         connectRequest += parser.getHostname();
-        connectRequest.resize(connectRequest.size() + 2);
-        *(reinterpret_cast<uint16_t*>(&connectRequest[connectRequest.size() - 2])) = 
-            ::htons(UrlParse::getProtocolPort(parser.getService()));
+        auto port = UrlParse::getProtocolPort(parser.getService());
+        connectRequest += static_cast<char>(port >> 8);
+        connectRequest += static_cast<char>(port & 0xFF);
 
-        co_await _io.fullySend(connectRequest);
-        co_await _io.fullyRecv(connectRequest);
+        co_await send(connectRequest);
+        char head[4];
+        co_await recv(head);
 
         /**
          * @brief 
@@ -156,7 +194,10 @@ private:
          *                                                16 (IPv6)	
          * BND.PORT	    绑定端口	    unsigned short	2
          */
-        if (connectRequest[1] != 0x00) [[unlikely]] { // 失败
+        if (head[0] != 0x05) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: VER is " + std::to_string(head[0]));
+        }
+        if (head[1] != 0x00) [[unlikely]] { // 失败
             /**
              * @brief 服务器响应消息中的 REP 字段如果不为 0x00, 则表示请求失. 不同值的具体含义如下:
              * 0x00 成功
@@ -169,8 +210,25 @@ private:
              * 0x07 不支持的命令
              * 0x08 不支持的地址类型
              */
-            throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectRequest[1]));
+            throw std::invalid_argument("Connect Request: REP is " + std::to_string(head[1]));
+        }
+
+        // 绑定地址的长度由 ATYP 决定, 与请求无关
+        std::size_t addrLen = 0;
+        switch (head[3]) {
+            case 0x01: addrLen = 4; break;
+            case 0x04: addrLen = 16; break;
+            case 0x03: {
+                char len[1];
+                co_await recv(len);
+                addrLen = static_cast<unsigned char>(len[0]);
+                break;
+            }
+            default: [[unlikely]]
+                throw std::invalid_argument("Connect Request: ATYP is " + std::to_string(head[3]));
         }
+        std::string bound(addrLen + 2, '\0');
+        co_await recv(bound);
     }
 };
 
-- 
2.43.0


From 8b601873d4bdf7a3f109866e549f899c713e4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 075/102] fix: http proxies: tunnels were only requested for
 https urls without a port, and never with credentials

---
 .../HXLibs/net/protocol/proxy/HttpProxy.hpp   | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
index ebc3d24..e8225b9 100644
--- a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
@@ -22,6 +22,7 @@
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
 #include <HXLibs/net/protocol/url/UrlParse.hpp>
+#include <HXLibs/net/protocol/codec/Base64.hpp>
 
 namespace HX::net {
 
@@ -33,18 +34,21 @@ public:
     coroutine::Task<> connect(std::string_view url, std::string_view targetUrl) {
         UrlInfoExtractor parser(targetUrl);
         HttpRequest<HttpIO> req{_io};
-        
-        if (parser.getService() == "https") {
-            req.setReqLine<HttpMethod::CONNECT>(
-                std::string{parser.getHostname()}
-                + ":"
-                + std::to_string(UrlParse::getProtocolPort(parser.getService()))
-            );
-        } else {
-            req.setReqLine<HttpMethod::GET>(url);
-        }
 
-        req.tryAddHeaders("Host", UrlParse::extractDomainName(std::string{url}));
+        // 之后在此连接上发送的是给目标服务器的请求 (或者 TLS), 因此总是需要建立隧道
+        auto target = UrlParse::extractDomainName(targetUrl)
+            + ":"
+            + std::to_string(UrlParse::getProtocolPort(parser.getService()));
+        req.setReqLine<HttpMethod::CONNECT>(target);
+        req.tryAddHeaders("Host", target);
+        if (auto user = UrlParse::extractUser(url)) {
+            std::string info{user->account};
+            info += ':';
+            info += user->password;
+            req.tryAddHeaders("Proxy-Authorization", "Basic " + base64Encode({
+                reinterpret_cast<uint8_t*>(info.data()), info.size()
+            }));
+        }
         req.tryAddHeaders("Connection", "keep-alive");
         req.tryAddHeaders("User-Agent", "HXLibs/1.0");
 
@@ -55,7 +59,7 @@ public:
         if (!co_await res.parserResHead<decltype(3_s)>()) {
             throw std::runtime_error{"Response parser error"};
         }
-        if (res.getStatusCode() != "200") {
+        if (!res.getStatusCode().starts_with('2')) {
             throw std::runtime_error("HTTP Proxy connect failed");
         }
     }
-- 
2.43.0


From 80672635bdb8d6e289cabd4fe99aaaa7f8c633fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 076/102] fix: a TLS connection cut off by the peer spun
 forever

---
 include/HXLibs/net/protocol/https/Https.hpp | 10 +++++++--
 include/HXLibs/net/socket/IO.hpp            | 23 +++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 5deb3d5..d5e493b 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -130,6 +130,12 @@ private:
 
 class SslBio {
 public:
+    // BIO 的容量, 一次写入的密文不可以超过它
+    inline constexpr static std::size_t kMaxCiphertext = utils::FileUtils::kBufMaxSize + 2048;
+
+    // 一条 TLS 记录最多的明文
+    inline constexpr static std::size_t kMaxPlaintext = 1 << 14;
+
     SslBio(SslContext::SslType type)
         : _ssl{
             SSL_new(type == SslContext::SslType::Server 
@@ -143,8 +149,8 @@ public:
 
         // 创建 BIO 对
         if (!BIO_new_bio_pair(
-            &_sslBio, utils::FileUtils::kBufMaxSize + 2048,
-            &_netBio, utils::FileUtils::kBufMaxSize + 2048
+            &_sslBio, kMaxCiphertext,
+            &_netBio, kMaxCiphertext
         )) {
             SSL_free(_ssl);  // 清理已分配的 SSL
             throw std::runtime_error("BIO_new_bio_pair failed");
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 8ca703c..33f6b37 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -319,7 +319,11 @@ public:
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recv(buf);
+            res = co_await Base::recv(buf.first(std::min(buf.size(), SslBio::kMaxCiphertext)));
+            if (res < 0) [[unlikely]] {
+                co_return res;
+            }
+            checkTruncated(res);
         }
         [[unlikely]] co_return res;
     }
@@ -421,7 +425,15 @@ public:
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            res = co_await Base::recvLinkTimeout<Timeout>(
+                buf.first(std::min(buf.size(), SslBio::kMaxCiphertext)));
+            if (res.index() == 0) [[likely]] {
+                auto n = get<0, exception::ExceptionMode::Nothrow>(res);
+                if (n < 0) [[unlikely]] {
+                    co_return res;
+                }
+                checkTruncated(n);
+            }
         }
         co_return res;
     }
@@ -479,6 +491,13 @@ public:
         }
     }
 private:
+    // 没有收到 close_notify 就断开, 数据可能被截断了
+    static void checkTruncated(int n) {
+        if (n == 0) [[unlikely]] {
+            throw std::runtime_error{"TLS Connection is Broken"};
+        }
+    }
+
     container::Uninitialized<SslBio> _ssl;
 };
 
-- 
2.43.0


From ee7536a5d8e23aecb902011f5b13ae52e64041b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 077/102] fix: more than a few records sent at once over TLS
 were lost

---
 include/HXLibs/net/socket/IO.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 33f6b37..0c02066 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -372,8 +372,12 @@ public:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> fullySend(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::fullySend(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = buf.first(std::min(buf.size(), SslBio::kMaxPlaintext));
+            _ssl.get().writePlaintext(part);
+            co_await Base::fullySend(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     /**
@@ -445,8 +449,12 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> sendLinkTimeout(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = buf.first(std::min(buf.size(), SslBio::kMaxPlaintext));
+            _ssl.get().writePlaintext(part);
+            co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     template <typename Timeout>
-- 
2.43.0


From 1c271d03cc241ae3cdbad19cb1606ecfacd87261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 078/102] fix: a TLS error of one connection broke the others
 of its thread

---
 include/HXLibs/net/protocol/https/Https.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index d5e493b..d7d9989 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -206,6 +206,7 @@ public:
      * @return int 读取的明文的字节数
      */
     int readPlaintext(std::span<char> buf) {
+        ERR_clear_error(); // 其他连接留下的错误会影响 SSL_get_error
         int n = SSL_read(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (n > 0) [[likely]] {
             return n;
@@ -228,6 +229,7 @@ public:
         if (!isInitFinished()) [[unlikely]] {
             throw std::runtime_error("Cannot write plaintext before handshake finished");
         }
+        ERR_clear_error();
         int res = SSL_write(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (res <= 0) [[unlikely]] {
             int err = SSL_get_error(_ssl, res);
@@ -256,6 +258,7 @@ public:
 
     // 驱动握手状态机, true 为握手成功
     bool driveHandshake() {
+        ERR_clear_error();
         int res = SSL_do_handshake(_ssl);
         if (res == 1) [[likely]] {
             return true;
-- 
2.43.0


From 4a55b681e8ccf4e37f12b5e02d16a5b7d1c54e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 079/102] fix: https clients never shook hands again after a
 reconnection

---
 include/HXLibs/net/client/HttpClient.hpp    | 7 ++-----
 include/HXLibs/net/protocol/https/Https.hpp | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index c8a3148..e720262 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -746,11 +746,8 @@ private:
             }
 #ifdef HXLIBS_ENABLE_SSL
             if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                if (!isInit) {
-                    _io.get().initSslBio(SslContext::SslType::Client);
-                } else {
-                    _io.get().resetSslBio();
-                }
+                // 重连也需要新的 SSL 会话 (之前的连接可能还没有初始化过它, 比如代理失败)
+                _io.get().initSslBio(SslContext::SslType::Client);
                 // 初始化连接 (Https 握手)
                 co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index d7d9989..0e4e539 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -175,6 +175,7 @@ public:
     void reset() noexcept {
         BIO_reset(_sslBio);
         BIO_reset(_netBio);
+        SSL_clear(_ssl);
     }
 
     SslBio& operator=(SslBio&&) = delete;
-- 
2.43.0


From 1cdee9c749cdfc883d13fbd2e0f5f1452702509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 080/102] fix: connections right after asyncRun() were refused

---
 include/HXLibs/net/server/Acceptor.hpp   |  5 ++--
 include/HXLibs/net/server/HttpServer.hpp | 34 ++++++++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 0f2c51a..d767a5f 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -49,10 +49,11 @@ struct Acceptor {
 
     Acceptor& operator=(Acceptor&&) noexcept = delete;
 
-    template <typename Timeout>
+    template <typename Timeout, typename OnListen>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<> start(std::atomic_bool const& isRun) {
+    coroutine::Task<> start(std::atomic_bool const& isRun, OnListen const& onListen) {
         auto serverFd = co_await makeServerFd();
+        onListen();
         for (;;) [[likely]] {
             SocketFdType fd = kInvalidSocket;
             bool isErr = false;
diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index c51c869..72572e7 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -26,6 +26,8 @@
 #include <HXLibs/container/FutureResult.hpp>
 #include <HXLibs/utils/TimeNTTP.hpp>
 
+#include <latch>
+
 namespace HX::net {
 
 using namespace utils::time_nttp_literals;
@@ -141,12 +143,14 @@ public:
             throw std::runtime_error{"The server is already running"};
         }
         init();
+        auto ready = std::make_shared<std::latch>(static_cast<std::ptrdiff_t>(threadNum));
         for (std::size_t i = 0; i < threadNum; ++i) {
             ++_runNum; // 在线程启动之前计数, 否则此时关闭服务器会认为没有线程在运行
-            _threads.emplace_back([this] {
-                _sync<Timeout>();
+            _threads.emplace_back([this, ready] {
+                _sync<Timeout>(*ready);
             });
         }
+        ready->wait(); // 返回之后, 就应该可以连接了
     }
 
     /**
@@ -171,8 +175,8 @@ public:
 private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
-        static_cast<Self*>(this)->template _sync<Timeout>();
+    void _sync(std::latch& ready) {
+        static_cast<Self*>(this)->template _sync<Timeout>(ready);
     }
 
     void info() {
@@ -233,18 +237,25 @@ private:
 
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    void _sync(std::latch& ready) {
+        bool isReady = false;
+        auto onListen = [&] {
+            if (!std::exchange(isReady, true)) {
+                ready.count_down();
+            }
+        };
         try {
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
             Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
+            auto mainTask = acceptor.start<Timeout>(_isRun, onListen);
             _eventLoop.start(mainTask);
             _eventLoop.run();
         } catch (std::exception const& ec) {
             log::hxLog.error("Server Error:", ec.what());
         }
+        onListen(); // 启动失败
         --_runNum;
     }
 
@@ -305,18 +316,25 @@ private:
 
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    void _sync(std::latch& ready) {
+        bool isReady = false;
+        auto onListen = [&] {
+            if (!std::exchange(isReady, true)) {
+                ready.count_down();
+            }
+        };
         try {
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
             Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
+            auto mainTask = acceptor.start<Timeout>(_isRun, onListen);
             _eventLoop.start(mainTask);
             _eventLoop.run();
         } catch (std::exception const& ec) {
             log::hxLog.error("Server Error:", ec.what());
         }
+        onListen(); // 启动失败
         --_runNum;
     }
 
-- 
2.43.0


From a8e5d004178cd5b8dfc9c0f3f05594b3ec99c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 081/102] fix: TLS connections were closed without close_notify
 or alert

---
 include/HXLibs/net/protocol/https/Https.hpp | 18 ++++++++++-
 include/HXLibs/net/socket/IO.hpp            | 36 +++++++++++++++++++++
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 0e4e539..dc54607 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -176,6 +176,17 @@ public:
         BIO_reset(_sslBio);
         BIO_reset(_netBio);
         SSL_clear(_ssl);
+        _isBroken = false;
+    }
+
+    /**
+     * @brief 产生 close_notify, 之后应该调用 `readCiphertext` 发送它; 如果握手还没有完成或者已经出错, 则不产生
+     */
+    void shutdown() noexcept {
+        if (!_isBroken && isInitFinished() && !(SSL_get_shutdown(_ssl) & SSL_SENT_SHUTDOWN)) {
+            ERR_clear_error();
+            SSL_shutdown(_ssl);
+        }
     }
 
     SslBio& operator=(SslBio&&) = delete;
@@ -217,6 +228,7 @@ public:
             if (err == SSL_ERROR_ZERO_RETURN) [[likely]] {
                 return 0; // SSL连接正常关闭
             }
+            _isBroken = true;
             throw std::runtime_error("SSL_write failed");
         }
         return -1; // 等待更多数据
@@ -235,6 +247,7 @@ public:
         if (res <= 0) [[unlikely]] {
             int err = SSL_get_error(_ssl, res);
             if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) [[unlikely]] {
+                _isBroken = true;
                 throw std::runtime_error("SSL_write failed");
             }
         }
@@ -265,8 +278,10 @@ public:
             return true;
         }
         int err = SSL_get_error(_ssl, res);
-        if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE)
+        if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
+            _isBroken = true;
             throw std::runtime_error("SSL handshake failed");
+        }
         return false;
     }
 
@@ -274,6 +289,7 @@ private:
     SSL* _ssl{nullptr};         // SSL会话对象, 负责加密解密操作
     BIO* _sslBio{nullptr};      // SSL BIO, 处理SSL协议层数据
     BIO* _netBio{nullptr};      // 网络 BIO, 处理原始网络数据传输
+    bool _isBroken{false};      // 出现过致命错误, 之后不能再使用 SSL 会话
 };
 
 } // namespace HX::net
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 0c02066..89210e0 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -498,7 +498,43 @@ public:
             });
         }
     }
+
+    /**
+     * @brief 告知对方不再发送 (close_notify), 然后关闭套接字
+     * @warning 注意, 内部不会抛异常! 需要外部自己检查
+     * @return coroutine::Task<int> close的返回值
+     */
+    coroutine::Task<int> close() noexcept {
+        co_await sendCloseNotify();
+        co_return co_await Base::close();
+    }
+
+    /**
+     * @brief 绑定新的 fd
+     * @warning 内部会把之前的 fd 给 close 了
+     * @param fd 
+     */
+    coroutine::Task<> bindNewFd(SocketFdType fd) noexcept {
+        co_await sendCloseNotify();
+        co_await Base::bindNewFd(fd);
+    }
 private:
+    // 没有 close_notify, 对方会认为数据被截断了. 还没有发送的警报 (如握手失败) 也在此发送
+    coroutine::Task<> sendCloseNotify() noexcept {
+        using namespace utils::time_nttp_literals;
+        if (!_ssl.isAvailable()) {
+            co_return;
+        }
+        try {
+            _ssl.get().shutdown();
+            if (auto out = _ssl.get().readCiphertext(); !out.empty()) {
+                co_await Base::sendLinkTimeout<decltype(1_s)>(out);
+            }
+        } catch (...) {
+            ; // 对方已经断开
+        }
+    }
+
     // 没有收到 close_notify 就断开, 数据可能被截断了
     static void checkTruncated(int n) {
         if (n == 0) [[unlikely]] {
-- 
2.43.0


From 3d4a1fe3a39eb3edc18e9cddd555f6e20ad8aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 082/102] fix: https clients accepted the certificate of any
 host and sent no server name

---
 include/HXLibs/net/client/HttpClient.hpp    |  2 +-
 include/HXLibs/net/protocol/https/Https.hpp | 26 +++++++++++++++++++++
 include/HXLibs/net/socket/IO.hpp            |  5 +++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index e720262..d243032 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -747,7 +747,7 @@ private:
 #ifdef HXLIBS_ENABLE_SSL
             if constexpr (std::is_same_v<IOType, HttpsIO>) {
                 // 重连也需要新的 SSL 会话 (之前的连接可能还没有初始化过它, 比如代理失败)
-                _io.get().initSslBio(SslContext::SslType::Client);
+                _io.get().initSslBio(SslContext::SslType::Client, UrlParse::parse(_url).host);
                 // 初始化连接 (Https 握手)
                 co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index dc54607..559e34c 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -22,10 +22,13 @@
 
 #include <stdexcept>
 #include <span>
+#include <string>
+#include <string_view>
 #include <vector>
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <openssl/x509_vfy.h>
 
 #include <HXLibs/exception/SslException.hpp>
 #include <HXLibs/utils/FileUtils.hpp>
@@ -172,6 +175,29 @@ public:
         SSL_set_connect_state(_ssl);
     }
 
+    /**
+     * @brief 设置要连接的主机: 告知对方 (SNI), 并且要求对方的证书属于它 (如果启用了证书验证)
+     * @param host 域名或者 IP (IPv6 可以带方括号)
+     */
+    void setHost(std::string_view host) {
+        if (host.starts_with('[') && host.ends_with(']')) {
+            host = host.substr(1, host.size() - 2);
+        }
+        if (host.ends_with('.')) {
+            host.remove_suffix(1);
+        }
+        std::string name{host};
+        ERR_clear_error();
+        if (X509_VERIFY_PARAM_set1_ip_asc(SSL_get0_param(_ssl), name.c_str()) == 1) {
+            return;
+        }
+        if (SSL_set_tlsext_host_name(_ssl, name.c_str()) != 1
+            || SSL_set1_host(_ssl, name.c_str()) != 1
+        ) [[unlikely]] {
+            throw std::runtime_error("Invalid host name: " + name);
+        }
+    }
+
     void reset() noexcept {
         BIO_reset(_sslBio);
         BIO_reset(_netBio);
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 89210e0..7bfed92 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -295,8 +295,11 @@ class HttpsIO : public HttpIO {
 public:
     using Base::Base;
 
-    void initSslBio(SslContext::SslType type) {
+    void initSslBio(SslContext::SslType type, std::string_view host = {}) {
         _ssl.set(type);
+        if (!host.empty()) {
+            _ssl.get().setHost(host);
+        }
     }
 
     void resetSslBio() {
-- 
2.43.0


From 9e215e23c32d7cdb40fb9b82d7904789f509cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 083/102] fix: servers that ask for client certificates failed
 on resumed sessions

---
 include/HXLibs/net/protocol/https/Https.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 559e34c..069241f 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -95,6 +95,9 @@ private:
         if (isServer) {
             // 服务器端需要设置验证模式, 要求客户端提供证书
             SSL_CTX_set_verify(sslCtx, static_cast<int>(config.verifyOption), nullptr);
+            // 需要客户端证书时, 没有它则无法恢复会话
+            static constexpr unsigned char sessionId[] = "HXLibs";
+            SSL_CTX_set_session_id_context(sslCtx, sessionId, sizeof(sessionId) - 1);
         } else {
             // 客户端可以设置验证服务器证书
             SSL_CTX_set_verify(sslCtx, static_cast<int>(config.verifyOption), nullptr);
-- 
2.43.0


From fff67c4485c12593e744dd5ef35391b0a9d71794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 084/102] fix: stopping an https server decided how later https
 clients verify

---
 include/HXLibs/net/server/HttpServer.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 72572e7..c7cb5d4 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -279,12 +279,10 @@ public:
         _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
-                HttpsClient cli{HttpClientOptions{}};
-                cli.initSsl({
-                    SslVerifyOption::None
-                });
+                // 仅仅需要唤醒 accept; 不可以初始化客户端的 SSL, 它是全局的, 会使得之后的验证选项无效
+                HttpClient cli{HttpClientOptions{}};
                 cli.get(
-                    (std::is_same_v<IO, HttpIO> ? std::string{"http"} : std::string{"https"}) 
+                    std::string{"http"}
                     + "://127.0.0.1:"
                     + _port
                     + "/",
-- 
2.43.0


From dc2498e8754c3cc191ffb48333c1f2e517cc93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 085/102] fix: bound parameters were lost when a later clause
 was skipped

Every stage of the builder kept its own tuple of bound values and derived from
a next stage without any, so .where<...>(v).orderBy<...>() or
.update<...>(v).returning<...>() ran the statement with NULL for v, and rvalues
could not be carried from one stage to the next at all.
---
 include/HXLibs/db/sql/Dml.hpp | 134 ++++++++++------------------------
 1 file changed, 40 insertions(+), 94 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 1913db3..cd9c18e 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -519,18 +519,14 @@ struct SelectEndBuild : public SelectSqlBuild<Db> {
     HX_DB_DML_SELECT_EXEC_IMPL
 };
 
+#undef HX_DB_DML_SELECT_EXEC_IMPL
+
 template <typename Db, typename... Ts>
-struct LimitBuild : public SelectSqlBuild<Db> {
-    using Base = SelectSqlBuild<Db>;
+struct LimitBuild : public SelectEndBuild<Db, Ts...> {
+    using Base = SelectEndBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp; // @todo
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr LimitBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <auto Offset, auto MaxCnt, typename... Us>
         requires ((std::is_integral_v<decltype(Offset)> || IsParamVal<decltype(Offset)>)
                && (std::is_integral_v<decltype(MaxCnt)> || IsParamVal<decltype(MaxCnt)>))
@@ -544,7 +540,7 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -558,25 +554,17 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<Offset>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
-struct OrderByBuild : public LimitBuild<Db> {
-    using Base = LimitBuild<Db>;
+struct OrderByBuild : public LimitBuild<Db, Ts...> {
+    using Base = LimitBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr OrderByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <OrderType... Orders>
         requires (sizeof...(Orders) > 0)
     LimitBuild<Db, Ts&&...> orderBy() && {
@@ -591,27 +579,19 @@ struct OrderByBuild : public LimitBuild<Db> {
             this->_dbRef.sql().back() = ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
-struct HavingBuild : public OrderByBuild<Db> {
-    using Base = OrderByBuild<Db>;
+struct HavingBuild : public OrderByBuild<Db, Ts...> {
+    using Base = OrderByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr HavingBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <Expression Expr, typename... Us>
-    OrderByBuild<Db, Ts&&..., Us&&...> having(Us&&... us) && {
+    auto having(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
         constexpr auto ParamCnt = meta::WrapSizeVal<ParamWrap>;
         // 绑定参数个数不正确
@@ -631,7 +611,7 @@ struct HavingBuild : public OrderByBuild<Db> {
             ) constexpr {
                 return OrderByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -644,26 +624,18 @@ struct HavingBuild : public OrderByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return OrderByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
-struct GroupByBuild : public HavingBuild<Db> {
-    using Base = HavingBuild<Db>;
+struct GroupByBuild : public HavingBuild<Db, Ts...> {
+    using Base = HavingBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr GroupByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <auto... Ptrs>
         requires (sizeof...(Ptrs) > 0 && (meta::IsMemberPtrVal<decltype(Ptrs)> && ...))
     HavingBuild<Db, Ts&&...> groupBy() && {
@@ -677,12 +649,12 @@ struct GroupByBuild : public HavingBuild<Db> {
         ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
         this->_dbRef.sql().back() = ' ';
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <Expression Expr, typename... Us>
-    HavingBuild<Db, Ts&&..., Us&&...> groupBy(Us&&... us) && {
+    auto groupBy(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
         constexpr auto ParamCnt = meta::WrapSizeVal<ParamWrap>;
         // 绑定参数个数不正确
@@ -702,7 +674,7 @@ struct GroupByBuild : public HavingBuild<Db> {
             ) constexpr {
                 return HavingBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -715,26 +687,18 @@ struct GroupByBuild : public HavingBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return HavingBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
-struct WhereBuild : public GroupByBuild<Db> {
-    using Base = GroupByBuild<Db>;
+struct WhereBuild : public GroupByBuild<Db, Ts...> {
+    using Base = GroupByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr WhereBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <Expression Expr, typename... Us>
     auto where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
@@ -756,7 +720,7 @@ struct WhereBuild : public GroupByBuild<Db> {
             ) constexpr {
                 return GroupByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -769,22 +733,19 @@ struct WhereBuild : public GroupByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return GroupByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
 struct JoinOrWhereBuild;
 
 template <typename Db, typename... Ts>
-struct OnBuild : public JoinOrWhereBuild<Db> {
-    using Base = JoinOrWhereBuild<Db>;
+struct OnBuild : public JoinOrWhereBuild<Db, Ts...> {
+    using Base = JoinOrWhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
     template <Expression Expr, typename... Us>
@@ -808,18 +769,15 @@ struct OnBuild : public JoinOrWhereBuild<Db> {
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return JoinOrWhereBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
 template <typename Db, typename... Ts>
-struct JoinOrWhereBuild : public WhereBuild<Db> {
-    using Base = WhereBuild<Db>;
+struct JoinOrWhereBuild : public WhereBuild<Db, Ts...> {
+    using Base = WhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
     template <typename Table>
@@ -830,39 +788,35 @@ struct JoinOrWhereBuild : public WhereBuild<Db> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> leftJoin() && {
+    constexpr OnBuild<Db, Ts&&...> leftJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "LEFT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> rightJoin() && {
+    constexpr OnBuild<Db, Ts&&...> rightJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "RIGHT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_DML_SELECT_EXEC_IMPL
 };
 
-#undef HX_DB_DML_SELECT_EXEC_IMPL
-
 template <typename Db>
 struct FromBuild : public SelectSqlBuild<Db> {
     using Base = SelectSqlBuild<Db>;
@@ -1237,19 +1191,13 @@ struct ReturningMutationBuild : public MutationSqlBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct WhereMutationBuild : public ReturningMutationBuild<Db> {
-    using Base = ReturningMutationBuild<Db>;
-
-    std::tuple<Ts const&...> _tp;
+struct WhereMutationBuild : public ReturningMutationBuild<Db, Ts...> {
+    using Base = ReturningMutationBuild<Db, Ts...>;
+    using Base::Base;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr WhereMutationBuild(Db db, Ts const&... ts)
-        : Base{db}
-        , _tp{ts...}
-    {}
-
     template <Expression Expr, typename... Us>
-    ReturningMutationBuild<Db, Ts&&..., Us&&...> where(Us&&... us) && {
+    ReturningMutationBuild<Db, Ts const&..., Us const&...> where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
         constexpr auto ParamCnt = meta::WrapSizeVal<ParamWrap>;
         // 绑定参数个数不正确
@@ -1268,12 +1216,10 @@ struct WhereMutationBuild : public ReturningMutationBuild<Db> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return ReturningMutationBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+            return ReturningMutationBuild<Db, Ts const&..., Us const&...>{this->_dbRef,
+                std::get<I>(this->_tp)..., us...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_MUTATION_EXEC_IMPL
 };
 
 #undef HX_DB_MUTATION_EXEC_IMPL
-- 
2.43.0


From 7c66a67ae4ed6a2f52b9b59be2f5c4f9a215d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 086/102] fix: INSERT, UPDATE and DELETE templates worked only
 once

The cached statement was reset after a successful SELECT only. The second run of
any other template failed to bind (or an INSERT ... RETURNING was left open with
its transaction), as did every run after a failed one.
---
 include/HXLibs/db/sql/Dml.hpp            | 19 ++++++++++++++++++-
 include/HXLibs/db/sqlite3/SqliteStmt.hpp |  7 +++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index cd9c18e..deb5896 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -85,6 +85,20 @@ struct DataBaseSqlBuildView {
         _db->_stmt.reset();
     }
 
+    /**
+     * @brief 作用域结束时重置 stmt, 使得同一模板无论成功与否都可以再次执行
+     */
+    auto resetGuard() noexcept {
+        struct Guard {
+            Db* _db;
+            Guard(Db* db) noexcept : _db{db} {}
+            Guard(Guard const&) = delete;
+            Guard& operator=(Guard const&) = delete;
+            ~Guard() noexcept { _db->_stmt.resetNoThrow(); }
+        };
+        return Guard{_db};
+    }
+
     template <auto... Vs>
     void selectForEach(std::vector<ColumnResult<meta::ValueWrap<Vs...>>>& resArr) {
         _db->_stmt.selectForEach(resArr);
@@ -468,6 +482,7 @@ struct SelectSqlBuild {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.prepareSql();
         }
+        [[maybe_unused]] auto guard = this->_dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!this->_dbRef.bind(Idx + 1, std::forward<Ts>(std::get<Idx>(ts)))) [[unlikely]] {
@@ -477,7 +492,6 @@ struct SelectSqlBuild {
         }(std::make_index_sequence<sizeof...(Ts)>{});
         std::vector<ColumnResType> res{};
         this->_dbRef.selectForEach(res);
-        this->_dbRef.reset();
         return res;
     }
 
@@ -876,6 +890,7 @@ struct InsertSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -993,6 +1008,7 @@ struct MutationSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1063,6 +1079,7 @@ struct MutationReturningSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 045035c..060fe2a 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -154,6 +154,13 @@ public:
         }
     }
 
+    /**
+     * @brief 重置 stmt, 忽略上次执行的错误码
+     */
+    void resetNoThrow() noexcept {
+        ::sqlite3_reset(_stmt);
+    }
+
     template <typename T>
     HX_DB_STMT_IMPL bool bind(std::size_t idx, T&& t) {
         auto i = static_cast<int>(idx);
-- 
2.43.0


From 06161ea3fafdcace67e0ce1520b05cba221b83ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 087/102] fix: execNoThrow of mutations did not compile, nor
 exec of UPDATE/DELETE ... RETURNING

The result of a void exec() was passed to setVal, statements returning rows
declared a single row instead of a vector, and values bound in where() by an
lvalue could not be executed.
---
 include/HXLibs/db/sql/Dml.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index deb5896..40d9448 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -911,9 +911,11 @@ struct InsertSqlBuild {
     container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
-            res.setVal(exec(ts));
             if constexpr (std::is_same_v<ColumnResType, void>) {
+                exec(ts);
                 res.setVal(container::NonVoidType<>{});
+            } else {
+                res.setVal(exec(ts));
             }
         } catch (...) {
             res.setException(std::current_exception());
@@ -1026,9 +1028,11 @@ struct MutationSqlBuild {
     container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
-            res.setVal(exec(ts));
             if constexpr (std::is_same_v<ColumnResType, void>) {
+                exec(ts);
                 res.setVal(container::NonVoidType<>{});
+            } else {
+                res.setVal(exec(ts));
             }
         } catch (...) {
             res.setException(std::current_exception());
@@ -1067,15 +1071,15 @@ struct MutationRes {
 template <typename Db, Col... Cs>
     requires (sizeof...(Cs) > 0)
 struct MutationReturningSqlBuild {
-    using ColumnResType = ColumnResult<meta::ValueWrap<Cs...>>;
-    using ColumnChangesResType = MutationRes<ColumnResType>;
+    using ColumnResType = std::vector<ColumnResult<meta::ValueWrap<Cs...>>>;
+    using ColumnChangesResType = MutationRes<ColumnResult<meta::ValueWrap<Cs...>>>;
 
     constexpr MutationReturningSqlBuild(Db db)
         : _dbRef{db}
     {}
 
     template <typename... Us>
-    std::vector<ColumnResType> exec(std::tuple<Us const&...> const& ts) {
+    ColumnResType exec(std::tuple<Us const&...> const& ts) {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
@@ -1087,19 +1091,16 @@ struct MutationReturningSqlBuild {
                 }
             }(), ...);
         }(std::make_index_sequence<sizeof...(Us)>{});
-        std::vector<ColumnResType> res;
+        ColumnResType res;
         _dbRef.template returningForEach<Cs...>(res);
         return res;
     }
 
     template <typename... Us>
-    container::Try<std::vector<ColumnResType>> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
+    container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
             res.setVal(exec(ts));
-            if constexpr (std::is_same_v<ColumnResType, void>) {
-                res.setVal(container::NonVoidType<>{});
-            }
         } catch (...) {
             res.setException(std::current_exception());
         }
@@ -1214,7 +1215,7 @@ struct WhereMutationBuild : public ReturningMutationBuild<Db, Ts...> {
     inline static constexpr auto N = sizeof...(Ts);
 
     template <Expression Expr, typename... Us>
-    ReturningMutationBuild<Db, Ts const&..., Us const&...> where(Us&&... us) && {
+    ReturningMutationBuild<Db, Ts const&..., std::remove_reference_t<Us> const&...> where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
         constexpr auto ParamCnt = meta::WrapSizeVal<ParamWrap>;
         // 绑定参数个数不正确
@@ -1233,7 +1234,7 @@ struct WhereMutationBuild : public ReturningMutationBuild<Db, Ts...> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return ReturningMutationBuild<Db, Ts const&..., Us const&...>{this->_dbRef,
+            return ReturningMutationBuild<Db, Ts const&..., std::remove_reference_t<Us> const&...>{this->_dbRef,
                 std::get<I>(this->_tp)..., us...};
         }(std::make_index_sequence<N>{});
     }
-- 
2.43.0


From 1965840bca8d2b5d9bf2c23b8af3b59903f5a4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 088/102] fix: SQL expressions did not mean what the C++
 expression says

Nested expressions were rendered without parentheses, so (a || b) && c selected
a || (b && c) and (x + 1) * 2 computed x + 2; a literal, or a calculation, on the
left of a column changed places with it, so 2 < x selected x < 2; IN with one
value was a syntax error; quotes inside string literals ended the SQL string.
---
 include/HXLibs/db/sql/Dml.hpp        | 43 +++++++++++++---------------
 include/HXLibs/db/sql/Expression.hpp | 20 ++++++-------
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 40d9448..3b4b09c 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -339,27 +339,36 @@ constexpr void expandExpr(std::string& res) {
     if constexpr (IsParamVal<T>) {
         res += "?";
     } else if constexpr (IsExpressionVal<T>) {
+        // 加括号, 保持 C++ 表达式的结合方式, 与 SQL 的运算符优先级无关
+        res += '(';
         res += exprToString<Expr>();
+        res += ')';
     } else if constexpr (IsColTypeVal<T>) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
         res += '\'';
-        res += Expr;
+        for (char c : std::string_view{Expr}) {
+            res += c;
+            if (c == '\'') {
+                res += c; // 转义
+            }
+        }
         res += '\'';
     } else if constexpr (IsSqlNumberTypeVal<T>) {
         res += log::toString(Expr);
     } else if constexpr (meta::IsValueWrapVal<T>) {
         [&] <auto... Vs> (meta::ValueWrap<Vs...>) {
-            if constexpr (sizeof...(Vs) > 1) {
-                res += '(';
-            }
+            res += '(';
             ((expandExpr<Vs>(res), res += ','), ...);
-            if constexpr (sizeof...(Vs) > 1) {
+            if constexpr (sizeof...(Vs) > 0) {
                 res.back() = ')';
             } else {
-                res.pop_back();
+                res += ')';
             }
         } (Expr);
+    } else {
+        // 非法表达式
+        static_assert(!sizeof(T), "illegal expression");
     }
 }
 
@@ -368,15 +377,7 @@ constexpr std::string exprToString() {
     std::string res{};
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        using Expr1 = decltype(Expr._expr1);
-        if constexpr (IsExpressionVal<Expr1>) {
-            res += exprToString<Expr._expr1>();
-        } else if constexpr (IsColTypeVal<Expr1>) {
-            res += makeColName<Expr._expr1>();
-        } else {
-            // 非法表达式
-            static_assert(!sizeof(Expr), "illegal expression");
-        }
+        expandExpr<Expr._expr1>(res);
         res += ' ';
         res += Expr._op.Sql;
         res += ' ';
@@ -422,14 +423,10 @@ template <Expression Expr>
 constexpr auto GetExprParamsTypeFunc() noexcept {
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        if constexpr (IsExpressionVal<decltype(Expr._expr1)>) {
-            return meta::FlattenWrapType<
-                decltype(GetExprParamsTypeFunc<Expr._expr1>()),
-                decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
-            >{};
-        } else {
-            return expandGetExprParamsTypeFunc<Expr._expr2>();
-        }
+        return meta::FlattenWrapType<
+            decltype(expandGetExprParamsTypeFunc<Expr._expr1>()),
+            decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
+        >{};
     } else {
         return meta::Wrap<>{};
     }
diff --git a/include/HXLibs/db/sql/Expression.hpp b/include/HXLibs/db/sql/Expression.hpp
index d7cb227..9f88ea6 100644
--- a/include/HXLibs/db/sql/Expression.hpp
+++ b/include/HXLibs/db/sql/Expression.hpp
@@ -162,8 +162,8 @@ struct Expression<Op, Expr, void> {
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            v, OP_NAME, c};                                                    \
     }
 
 HX_DB_3OP_COMP_IMPL(<, op::Lt)
@@ -200,8 +200,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            v, OP_NAME, c};                                                    \
     }                                                                          \
     template <ColType C, CalculateExprType CET>                                \
     constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
@@ -209,9 +209,9 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
         return {c, OP_NAME, cet};                                              \
     }                                                                          \
     template <CalculateExprType CET, ColType C>                                \
-    constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
+    constexpr Expression<CET, decltype(OP_NAME), C> operator OP(               \
         CET cet, C c) noexcept {                                               \
-        return {c, OP_NAME, cet};                                              \
+        return {cet, OP_NAME, c};                                              \
     }                                                                          \
     template <CalculateExprType CET>                                           \
     constexpr auto operator OP(CET cet, auto v) noexcept                       \
@@ -224,8 +224,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
     constexpr auto operator OP(auto v, CET cet) noexcept                       \
         requires(IsSqlNumberTypeVal<decltype(v)>)                              \
     {                                                                          \
-        return Expression<CET, decltype(OP_NAME), decltype(v), void>{          \
-            cet, OP_NAME, std::move(v)};                                       \
+        return Expression<decltype(v), decltype(OP_NAME), CET, void>{          \
+            v, OP_NAME, cet};                                                  \
     }
 
 HX_DB_3OP_NUMBER_IMPL(==, op::Eq)
@@ -255,8 +255,8 @@ HX_DB_3OP_NUMBER_IMPL(%, op::Mod)
             meta::StringType<meta::RemoveOptionalWrapType<typename C::Type>>   \
             && meta::IsFixedStringVal<decltype(v)>)                            \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            v, OP_NAME, c};                                                    \
     }
 
 HX_DB_3OP_STR_IMPL(==, op::Eq)
-- 
2.43.0


From 957ee2af8a08b19328b0dc7cf613303814b6d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 089/102] fix: number literals in SQL changed their value or
 type

A float literal was shortened to its own precision before being compared with
the double stored, a whole floating literal became an integer (x / 2.0 divided
integers), infinities and NaN became identifiers, and so did characters.
---
 include/HXLibs/db/sql/Dml.hpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 3b4b09c..60275a4 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -18,6 +18,10 @@
  * limitations under the License.
  */
 
+#include <cstdint>
+#include <limits>
+#include <string>
+
 #include <HXLibs/reflection/MemberPtr.hpp>
 #include <HXLibs/log/serialize/ToString.hpp>
 #include <HXLibs/container/Try.hpp>
@@ -330,6 +334,31 @@ constexpr std::string makeColName() {
     return res;
 }
 
+/**
+ * @brief 数字字面量 -> SQL 字面量, 保持数值与类型 (整数 / 浮点)
+ */
+template <typename T>
+constexpr void addNumberLiteral(std::string& res, T v) {
+    if constexpr (std::is_integral_v<T>) {
+        res += log::toString(static_cast<std::int64_t>(v));
+    } else {
+        auto const num = static_cast<double>(v);
+        if (num != num) {
+            res += "NULL";
+        } else if (num > std::numeric_limits<double>::max()) {
+            res += "9e999";
+        } else if (num < std::numeric_limits<double>::lowest()) {
+            res += "-9e999";
+        } else {
+            auto str = log::toString(num);
+            if (str.find_first_of(".e") == std::string::npos) {
+                str += ".0";
+            }
+            res += str;
+        }
+    }
+}
+
 template <Expression Expr>
 constexpr std::string exprToString();
 
@@ -355,7 +384,7 @@ constexpr void expandExpr(std::string& res) {
         }
         res += '\'';
     } else if constexpr (IsSqlNumberTypeVal<T>) {
-        res += log::toString(Expr);
+        addNumberLiteral(res, Expr);
     } else if constexpr (meta::IsValueWrapVal<T>) {
         [&] <auto... Vs> (meta::ValueWrap<Vs...>) {
             res += '(';
-- 
2.43.0


From 185e647dcec26ab68274550cde9207c9e06e44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 090/102] fix: the text of a SELECT template was appended to on
 later uses

After a first use that failed to prepare, the next one appended a second SELECT
to the old text and could never succeed; GROUP BY and LIMIT were appended on every
use, growing the cached text without bound.
---
 include/HXLibs/db/sql/Dml.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 60275a4..78e558c 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -574,10 +574,12 @@ struct LimitBuild : public SelectEndBuild<Db, Ts...> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> + IsParamVal<decltype(MaxCnt)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
-        this->_dbRef.sql() += ',';
-        internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+            this->_dbRef.sql() += ',';
+            internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
@@ -590,8 +592,10 @@ struct LimitBuild : public SelectEndBuild<Db, Ts...> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::forward<Ts>(std::get<I>(this->_tp))..., std::forward<Us>(us)...};
@@ -685,9 +689,11 @@ struct GroupByBuild : public HavingBuild<Db, Ts...> {
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
     HavingBuild<Db, Ts&&...> groupBy() && {
-        this->_dbRef.sql() += "GROUP BY ";
-        ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
-        this->_dbRef.sql().back() = ' ';
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "GROUP BY ";
+            ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
+            this->_dbRef.sql().back() = ' ';
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return HavingBuild<Db, Ts&&...>{this->_dbRef, std::forward<Ts>(std::get<I>(this->_tp))...};
         }(std::make_index_sequence<N>{});
@@ -882,7 +888,7 @@ struct SelectBuild : public SelectSqlBuild<Db> {
         requires (sizeof...(Cs) > 0)
     constexpr FromBuild<Db> select() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
-            this->_dbRef.sql() += "SELECT ";
+            this->_dbRef.sql() = "SELECT ";
             ([this] <auto C> (meta::ValueWrap<C>) {
                 using U = decltype(C);
                 if constexpr (IsColTypeVal<U>) {
-- 
2.43.0


From f4d6a88e218e596def90b7e79693d99f0424d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 091/102] fix: custom columns stored freed memory; custom and
 blob columns could not be read

The temporary string returned by CustomType::toSql was bound by pointer and read
by sqlite after it was gone. Reading custom and blob columns did not compile. An
empty string_view or blob was stored as NULL.
---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 060fe2a..bfd671a 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -82,13 +82,14 @@ public:
         } else if constexpr (std::is_same_v<Type, Blob>) {
             auto blob = ::sqlite3_column_blob(_stmt, idx);
             auto len = ::sqlite3_column_bytes(_stmt, idx);
-            return Type(blob, static_cast<std::size_t>(len));
+            auto* data = static_cast<const char*>(blob);
+            return data ? Type(data, data + len) : Type{};
         } else if constexpr (IsCustomTypeVal<Type>) {
             auto* str = reinterpret_cast<const char *>(
                 ::sqlite3_column_text(_stmt, idx)
             );
             auto len = ::sqlite3_column_bytes(_stmt, idx);
-            return CustomType<Type>::fromSql({str, len});
+            return CustomType<Type>::fromSql({str, static_cast<std::size_t>(len)});
         } else {
             // 不支持该类型
             static_assert(!sizeof(Type), "type is not sql type");
@@ -173,12 +174,16 @@ public:
             } else if constexpr (std::is_floating_point_v<SqlType>) {
                 return SQLITE_OK == ::sqlite3_bind_double(_stmt, i, data);
             } else if constexpr (meta::StringType<SqlType>) {
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
+                // 空指针会被视为 NULL, 但空串不是 NULL
+                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, data.data() ? data.data() : "",
+                    static_cast<int>(data.size()), nullptr);
             } else if constexpr (std::is_same_v<SqlType, Blob>) {
-                return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
+                return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data() ? data.data() : "",
+                    static_cast<int>(data.size()), nullptr);
             } else if constexpr (IsCustomTypeVal<SqlType>) {
-                auto const& sqlData = CustomType<Type>::toSql(data);
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), nullptr);
+                // toSql 可能返回临时对象, 由 sqlite 拷贝一份
+                auto const& sqlData = CustomType<SqlType>::toSql(data);
+                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), SQLITE_TRANSIENT);
             } else {
                 // 不支持该类型
                 static_assert(!sizeof(SqlType), "type is not sql type");
-- 
2.43.0


From 8e1ee9a126c280f205a32d4c0b0a9eaf7c0cf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 092/102] fix: optional columns could not be stored, and NULL
 was read back as a value

A table with a std::optional member did not compile (so isNull() could not be
used at all), and the readers asked whether the type inside the optional was an
optional, so NULL would have come back as 0 or an empty string.
---
 include/HXLibs/db/sql/CustomType.hpp          | 6 ++++++
 include/HXLibs/db/sql/Stmt.hpp                | 6 +++---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 4 ++--
 include/HXLibs/db/sqlite3/SqliteStmt.hpp      | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/db/sql/CustomType.hpp b/include/HXLibs/db/sql/CustomType.hpp
index 06b1df6..ec41047 100644
--- a/include/HXLibs/db/sql/CustomType.hpp
+++ b/include/HXLibs/db/sql/CustomType.hpp
@@ -18,6 +18,8 @@
  * limitations under the License.
  */
 
+#include <optional>
+
 #include <HXLibs/meta/ContainerConcepts.hpp>
 #include <HXLibs/db/sql/SqlType.hpp>
 
@@ -55,4 +57,8 @@ constexpr bool IsCustomTypeVal = requires {
     CustomType<T>{};
 };
 
+// std::optional 由其值类型决定, 本身不是自定义类型
+template <typename T>
+constexpr bool IsCustomTypeVal<std::optional<T>> = false;
+
 } // namespace HX::db
\ No newline at end of file
diff --git a/include/HXLibs/db/sql/Stmt.hpp b/include/HXLibs/db/sql/Stmt.hpp
index cea0e89..b0e980e 100644
--- a/include/HXLibs/db/sql/Stmt.hpp
+++ b/include/HXLibs/db/sql/Stmt.hpp
@@ -100,10 +100,10 @@ template <
     typename NullFunc,
     typename Type = RemoveConstraintToType<meta::RemoveCvRefType<T>>
 >
-    requires (std::is_invocable_v<AnyFunc, Type&>
+    requires (std::is_invocable_v<AnyFunc, meta::RemoveOptionalWrapType<Type>&>
            && std::is_invocable_v<NullFunc>)
 constexpr bool stmtBind(T&& t, AnyFunc&& anyFunc, NullFunc&& nullFunc) noexcept(
-    noexcept(std::forward<AnyFunc>(anyFunc)(std::declval<Type&>()))
+    noexcept(std::forward<AnyFunc>(anyFunc)(std::declval<meta::RemoveOptionalWrapType<Type>&>()))
  && noexcept(std::forward<NullFunc>(nullFunc)())
 ) {
     auto const& data = static_cast<Type const&>(t);
@@ -112,7 +112,7 @@ constexpr bool stmtBind(T&& t, AnyFunc&& anyFunc, NullFunc&& nullFunc) noexcept(
     } else if constexpr (meta::IsOptionalVal<Type>) {
         if constexpr (IsCustomTypeVal<typename Type::value_type>) {        
             if (data) {
-                return std::forward<AnyFunc>(anyFunc)(data);
+                return std::forward<AnyFunc>(anyFunc)(*data);
             } else {
                 return std::forward<NullFunc>(nullFunc)();
             }
diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 6d07fb5..b81f57a 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -50,7 +50,7 @@ struct CreateDbSql {
             static_assert(!sizeof(T), "type is not sql type");
         } else if constexpr (std::is_same_v<T, db::Blob>) {
             return "BLOB"sv;
-        } {
+        } else {
             return std::forward<Lambda>(doNotTypeFunc)();
         }
     }
@@ -64,7 +64,7 @@ struct CreateDbSql {
     }
 
     template <typename T>
-        requires (IsCustomTypeVal<T>)
+        requires (IsCustomTypeVal<meta::RemoveOptionalWrapType<T>>)
     static constexpr std::string_view getSqlTypeStr() noexcept {
         return getSqlTypeStrImpl<T>([] {
             using namespace std::string_view_literals;
diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index bfd671a..3731c3a 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -104,7 +104,7 @@ public:
                 resArr.emplace_back([&] {
                     using Res = typename decltype(internal::toCol<Vs>())::Type;
                     using Type = meta::RemoveOptionalWrapType<Res>;
-                    if constexpr (meta::IsOptionalVal<Type>) {
+                    if constexpr (meta::IsOptionalVal<Res>) {
                         if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                             return Res{};
                         }
@@ -204,7 +204,7 @@ public:
             return ColumnResult<meta::ValueWrap<Vs...>>([&]() constexpr {
                 using Res = typename decltype(internal::toCol<Vs>())::Type;
                 using Type = meta::RemoveOptionalWrapType<Res>;
-                if constexpr (meta::IsOptionalVal<Type>) {
+                if constexpr (meta::IsOptionalVal<Res>) {
                     if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                         return Res{};
                     }
-- 
2.43.0


From e78545ecde10dbd375a7b3839d9759c23fa75741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 093/102] fix: a failing SELECT or RETURNING threw a
 std::string

Every other failure is a std::runtime_error; catch (std::exception const&) missed
this one and execNoThrow().what() did not say what happened.
---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 3731c3a..4c6455e 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -117,7 +117,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -129,7 +129,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
-- 
2.43.0


From 2aa88ca90d3f052ee841c60eb197f6ccc5b6826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 094/102] fix: a database could not be closed or reopened

close() kept the handle, so the destructor (or open()) closed it twice, and kept
the cached statements, so the old connection stayed open and templates used after
open() went on working on the old database. A failed open leaked its handle, and
file names and SQL given as string_views were read past their end.
---
 include/HXLibs/db/sqlite3/SqliteDB.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 1401a16..9d1bb5e 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -48,10 +48,10 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
 
     void open(std::string_view filePath) {
         close();
-        if (::sqlite3_open(filePath.data(), &_db) != SQLITE_OK) [[unlikely]] {
-            throw std::runtime_error{
-                "Failed to open database: " + std::string{::sqlite3_errmsg(_db)}
-            };
+        if (::sqlite3_open(std::string{filePath}.c_str(), &_db) != SQLITE_OK) [[unlikely]] {
+            auto msg = "Failed to open database: " + std::string{::sqlite3_errmsg(_db)};
+            close(); // 打开失败也需要释放句柄
+            throw std::runtime_error{msg};
         }
     }
 
@@ -59,6 +59,8 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         if (!_db) {
             return;
         }
+        // 缓存的 stmt 属于旧连接, 不清空则旧连接无法关闭, 且重新 open 后仍会操作旧数据库
+        Base::clearCache();
 #ifndef NDEBUG
         sqlite3_stmt* stmt = nullptr;
         while ((stmt = sqlite3_next_stmt(_db, stmt))) {
@@ -66,17 +68,16 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         }
 #endif
         sqlite3_close(_db);
+        _db = nullptr;
     }
 
     ~SqliteDB() noexcept {
-        // 需要清空缓存, 否则无法释放 sqlite3_close
-        Base::clearCache();
         close();
     }
 
     void exec(std::string_view sql) {
         char* errMsg = nullptr;
-        if (::sqlite3_exec(_db, sql.data(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
+        if (::sqlite3_exec(_db, std::string{sql}.c_str(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
             std::string err = errMsg ? errMsg : "unknown error";
             ::sqlite3_free(errMsg);
             throw std::runtime_error{err};
-- 
2.43.0


From c5c9f0436217e736512b46d010eeda40f9ef304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 095/102] fix: templates of a moved database prepared their SQL
 on the old object

A cached template that had not been prepared yet kept a pointer to the database
object it was created on.
---
 include/HXLibs/db/sql/DataBase.hpp | 1 +
 include/HXLibs/db/sql/Dml.hpp      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/DataBase.hpp b/include/HXLibs/db/sql/DataBase.hpp
index 89d6018..eb07a54 100644
--- a/include/HXLibs/db/sql/DataBase.hpp
+++ b/include/HXLibs/db/sql/DataBase.hpp
@@ -41,6 +41,7 @@ struct DataBaseCrtp {
     auto& sqlTemplate() {
         constexpr auto Id = meta::TypeId::make<meta::ValueWrap<FuncPtr, Feature...>>();
         if (auto it = _sqlMap.find(Id); it != _sqlMap.end()) {
+            it->second._db = static_cast<CRTP*>(this); // 缓存可能是从其他对象移动而来
             return it->second;
         }
         auto [it, _] = _sqlMap.emplace(Id, static_cast<CRTP*>(this));
diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 78e558c..26cd452 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -313,7 +313,7 @@ struct DataBaseSqlBuild {
         return WhereMutationBuild<DbView>{DbView{this}};
     }
 
-    Db* const _db{};
+    Db* _db{};
     std::string _sql{};
     Db::StmtType _stmt{};
     bool _isInit{false};
-- 
2.43.0


From f7eda22eae6f907d4096fda140fc0d7efa71b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 096/102] fix: createDatabase failed the second time, and with
 custom table names

Indexes were created without IF NOT EXISTS, and indexes and foreign keys named the
C++ type instead of the table. String defaults with a quote were a syntax error.
---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 27 +++++++++++++------
 include/HXLibs/db/sqlite3/SqliteDB.hpp        |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index b81f57a..c13fe33 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -103,7 +103,18 @@ struct CreateDbSql {
             } else if constexpr (attr::IsDefaultValTypeVal<Constraint>) {
                 [&] <auto Value> (attr::DefaultVal<Value>) {
                     mainSql += "DEFAULT ";
-                    mainSql += log::toString(Value);
+                    if constexpr (meta::IsFixedStringVal<meta::RemoveCvRefType<decltype(Value)>>) {
+                        mainSql += '\'';
+                        for (char c : std::string_view{Value}) {
+                            mainSql += c;
+                            if (c == '\'') {
+                                mainSql += c; // 转义
+                            }
+                        }
+                        mainSql += '\'';
+                    } else {
+                        mainSql += log::toString(Value);
+                    }
                 }(Constraint{});
             } else if constexpr (attr::IsForeignVal<Constraint>) {
                 [&] <auto Key> (attr::Foreign<Key>) {
@@ -115,7 +126,7 @@ struct CreateDbSql {
                     using ForeignTable = meta::GetMemberPtrsClassType<decltype(Key)>;
                     std::string keySql = "FOREIGN KEY(";
                     std::string refSql = " REFERENCES ";
-                    refSql += reflection::getTypeName<ForeignTable>();
+                    refSql += getTableName<ForeignTable>();
                     refSql += '(';
 
                     auto map = reflection::makeMemberPtrToNameMap<ForeignTable>();
@@ -185,7 +196,7 @@ struct CreateDbSql {
                         // 内外键对应的类型应该相同 (ForeignMap 类型默认保证)
                         std::string keySql = "FOREIGN KEY(";
                         std::string refSql = " REFERENCES ";
-                        refSql += reflection::getTypeName<ForeignTable>();
+                        refSql += getTableName<ForeignTable>();
                         refSql += '(';
                         
                         auto selfNameMap = reflection::makeMemberPtrToNameMap<Table>();
@@ -253,15 +264,15 @@ struct CreateDbSql {
         }
     }
 
-    template <typename T>
+    template <typename T, bool IsNotExists = true>
     static std::vector<std::string> createIndex(T&& t) {
         using Table = meta::RemoveCvRefType<T>;
         auto sqls = std::vector<std::string>{};
 #if defined(_MSC_VER)
         // https://github.com/HengXin666/HXLibs/issues/17 (MSVC ICE)
-        const auto tableName = reflection::getTypeName<Table>();
+        const auto tableName = getTableName<Table>();
 #else
-        constexpr auto tableName = reflection::getTypeName<Table>();
+        constexpr auto tableName = getTableName<Table>();
 #endif // !defined(_MSC_VER)
         reflection::forEach(t, [&] (auto, auto name, auto&& val) {
             using Type = meta::RemoveCvRefType<decltype(val)>;
@@ -269,7 +280,7 @@ struct CreateDbSql {
                 [&] <typename U, typename... ConstraintTypes> (Constraint<U, ConstraintTypes...>&) {
                     ([&] <typename Constraint> (Constraint) {
                         if constexpr (attr::IsIndexVal<Constraint>) {
-                            std::string sql = "CREATE INDEX idx_";
+                            std::string sql = IsNotExists ? "CREATE INDEX IF NOT EXISTS idx_" : "CREATE INDEX idx_";
                             sql += tableName;
                             sql += '_';
                             sql += name;
@@ -302,7 +313,7 @@ struct CreateDbSql {
                         static_assert(!std::is_void_v<meta::GetMemberPtrsClassType<
                             attr::internal::GetIndexOrderKeyType<Keys>...>>,
                             "It is required that all indexes are from the same class");
-                        std::string sql = "CREATE INDEX idx_";
+                        std::string sql = IsNotExists ? "CREATE INDEX IF NOT EXISTS idx_" : "CREATE INDEX idx_";
                         std::string idxSql = "(";
                         sql += tableName;
                         ([&] <auto KeyPtr, attr::Order SortOrder> (attr::IndexOrder<KeyPtr, SortOrder>) {
diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 9d1bb5e..ce1f77e 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -90,7 +90,7 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         try {
             auto sql = sqlite::CreateDbSql::createDatabase<Table, IsNotExists>({});
             exec(sql);
-            auto index = sqlite::CreateDbSql::createIndex<Table>({});
+            auto index = sqlite::CreateDbSql::createIndex<Table, IsNotExists>({});
             for (auto const& idxSql : index) {
                 exec(idxSql);
             }
-- 
2.43.0


From 20f2eb70ff3099c517f02407c18715ae378693b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 097/102] fix: aggregates were read back as the type of their
 column

avg() of an integer column lost its fraction, sum() of 32-bit columns was cut to
32 bits and count() of a text column was a string. Counts are 64-bit integers,
averages doubles, sums 64-bit integers or doubles; min() and max() keep the type
of the column.
---
 include/HXLibs/db/sql/Aggregate.hpp      | 46 ++++++++++++++++++++----
 include/HXLibs/db/sql/ColumnResult.hpp   | 17 ++++++++-
 include/HXLibs/db/sqlite3/SqliteStmt.hpp |  4 +--
 3 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/db/sql/Aggregate.hpp b/include/HXLibs/db/sql/Aggregate.hpp
index ddfef8e..a2a8960 100644
--- a/include/HXLibs/db/sql/Aggregate.hpp
+++ b/include/HXLibs/db/sql/Aggregate.hpp
@@ -18,14 +18,42 @@
  * limitations under the License.
  */
 
+#include <cstdint>
+#include <optional>
+#include <type_traits>
+
 #include <HXLibs/db/sql/Column.hpp>
 
 namespace HX::db {
 
 namespace agg {
 
-#define HX_DB_AGG_OP_IMPL(OP_NAME, SQL_STR)                                    \
+namespace internal {
+
+// 列可为 NULL 时, 聚合结果也可为 NULL
+template <typename T, typename Res>
+using OptionalLike = std::conditional_t<meta::IsOptionalVal<T>, std::optional<Res>, Res>;
+
+template <typename T>
+using SumResType = OptionalLike<T, std::conditional_t<
+    std::is_integral_v<meta::RemoveOptionalWrapType<T>>, std::int64_t, double>>;
+
+template <typename T>
+using AvgResType = OptionalLike<T, double>;
+
+template <typename T>
+using SameResType = T;
+
+template <typename T>
+using CountResType = std::int64_t;
+
+} // namespace internal
+
+#define HX_DB_AGG_OP_IMPL(OP_NAME, SQL_STR, RES_TYPE)                          \
     struct OP_NAME {                                                           \
+        template <typename T>                                                  \
+        using ResType = RES_TYPE<T>;                                           \
+                                                                               \
         static constexpr std::string toSql(std::string name) noexcept {        \
             name = SQL_STR "(" + std::move(name);                              \
             name += ")";                                                       \
@@ -34,16 +62,19 @@ namespace agg {
     };
 
 // 聚合函数名
-HX_DB_AGG_OP_IMPL(Sum, "SUM")
-HX_DB_AGG_OP_IMPL(Avg, "AVG")
-HX_DB_AGG_OP_IMPL(Min, "MIN")
-HX_DB_AGG_OP_IMPL(Max, "MAX")
-HX_DB_AGG_OP_IMPL(Count, "COUNT") // 统计列中非 NULL 的行数
+HX_DB_AGG_OP_IMPL(Sum, "SUM", internal::SumResType)
+HX_DB_AGG_OP_IMPL(Avg, "AVG", internal::AvgResType)
+HX_DB_AGG_OP_IMPL(Min, "MIN", internal::SameResType)
+HX_DB_AGG_OP_IMPL(Max, "MAX", internal::SameResType)
+HX_DB_AGG_OP_IMPL(Count, "COUNT", internal::CountResType) // 统计列中非 NULL 的行数
 
 #undef HX_DB_AGG_OP_IMPL
 
 // 统计行数, 不管 NULL
 struct CountAll {
+    template <typename T>
+    using ResType = internal::CountResType<T>;
+
     static constexpr std::string toSql(std::string_view) noexcept {
         return "COUNT(*)";
     }
@@ -51,6 +82,9 @@ struct CountAll {
 
 // 统计列中不同值的数量
 struct CountDistinct {
+    template <typename T>
+    using ResType = internal::CountResType<T>;
+
     static constexpr std::string toSql(std::string name) noexcept {
         name = "COUNT(DISTINCT " + std::move(name);
         name += ")";
diff --git a/include/HXLibs/db/sql/ColumnResult.hpp b/include/HXLibs/db/sql/ColumnResult.hpp
index 87c33a7..6716e7e 100644
--- a/include/HXLibs/db/sql/ColumnResult.hpp
+++ b/include/HXLibs/db/sql/ColumnResult.hpp
@@ -18,6 +18,9 @@
  * limitations under the License.
  */
 
+#include <tuple>
+#include <type_traits>
+
 #include <HXLibs/log/serialize/CustomToString.hpp>
 #include <HXLibs/db/sql/Column.hpp>
 #include <HXLibs/db/sql/Aggregate.hpp>
@@ -38,6 +41,18 @@ constexpr auto toCol() noexcept {
     }
 }
 
+// 查询结果的类型: 列为列类型, 聚合函数为其结果类型
+template <auto V>
+constexpr auto toResType() noexcept {
+    using T = decltype(V);
+    using ColType = typename decltype(toCol<V>())::Type;
+    if constexpr (IsAggregateFuncVal<T>) {
+        return std::type_identity<typename T::AggFunc::template ResType<ColType>>{};
+    } else {
+        return std::type_identity<ColType>{};
+    }
+}
+
 } // namespace internal
 
 template <typename SelectT>
@@ -45,7 +60,7 @@ struct ColumnResult;
 
 template <auto... Cs>
 struct ColumnResult<meta::ValueWrap<Cs...>> {
-    using Type = std::tuple<typename decltype(internal::toCol<Cs>())::Type...>;
+    using Type = std::tuple<typename decltype(internal::toResType<Cs>())::type...>;
 
     constexpr ColumnResult() = default;
 
diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 4c6455e..abcd9a0 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -102,7 +102,7 @@ public:
         while (rc == SQLITE_ROW) {
             [&] <std::size_t... Idx> (std::index_sequence<Idx...>) {
                 resArr.emplace_back([&] {
-                    using Res = typename decltype(internal::toCol<Vs>())::Type;
+                    using Res = typename decltype(internal::toResType<Vs>())::type;
                     using Type = meta::RemoveOptionalWrapType<Res>;
                     if constexpr (meta::IsOptionalVal<Res>) {
                         if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
@@ -202,7 +202,7 @@ public:
     HX_DB_STMT_IMPL ColumnResult<meta::ValueWrap<Vs...>> returning() {
         return [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             return ColumnResult<meta::ValueWrap<Vs...>>([&]() constexpr {
-                using Res = typename decltype(internal::toCol<Vs>())::Type;
+                using Res = typename decltype(internal::toResType<Vs>())::type;
                 using Type = meta::RemoveOptionalWrapType<Res>;
                 if constexpr (meta::IsOptionalVal<Res>) {
                     if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
-- 
2.43.0


From 4080948f4249a5af3c6ad6f82937d33e2461217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 098/102] fix: write and read an empty tuple as an empty JSON
 array

---
 include/HXLibs/reflection/json/JsonRead.hpp  | 3 +++
 include/HXLibs/reflection/json/JsonWrite.hpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 38f5e71..570accb 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -405,6 +405,9 @@ struct FromJson {
         }
         // 解析数组 []
         constexpr auto N = std::tuple_size_v<T>;
+        if constexpr (!N) {
+            throw std::runtime_error{"The tuple doesn't have enough space for data"};
+        }
         bool isEnd = false;
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() {
diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index dfc9be1..7a222a1 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -349,7 +349,11 @@ struct ToJson {
                 s.push_back(',');
             }(), ...);
         }(std::make_index_sequence<N>{});
-        s.back() = ']';
+        if constexpr (N) {
+            s.back() = ']';
+        } else {
+            s.push_back(']');
+        }
     }
 
     // opt
-- 
2.43.0


From 3879f89ea6540fb22ae2ecd591089881be5d881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 099/102] fix: timers at the ends of the clock's range do not
 overflow

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 9ba43f4..944b22d 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -53,10 +53,11 @@ struct TimerLoop {
             return std::chrono::system_clock::duration::zero();
         }
         if (_timerTree.size()) {
-            return std::max(
-                _timerTree.begin()->first - std::chrono::system_clock::now(),
-                std::chrono::system_clock::duration::zero()
-            );
+            auto const expireTime = _timerTree.begin()->first;
+            nowTime = std::chrono::system_clock::now();
+            return expireTime > nowTime // 避免时间差溢出
+                ? expireTime - nowTime
+                : std::chrono::system_clock::duration::zero();
         }
         return {};
     }
@@ -152,8 +153,10 @@ private:
          * @param duration 比如 3s
          */
         TimerAwaiter sleepFor(std::chrono::system_clock::duration duration) && {
-            return TimerAwaiter{_timerLoop}.setExpireTime(
-                std::chrono::system_clock::now() + duration);
+            using TimePoint = std::chrono::system_clock::time_point;
+            auto const now = std::chrono::system_clock::now();
+            return TimerAwaiter{_timerLoop}.setExpireTime( // 避免溢出, 如 duration::max()
+                duration > TimePoint::max() - now ? TimePoint::max() : now + duration);
         }
         /**
          * @brief 暂停指定时间点
-- 
2.43.0


From f7ad2bc528df7532bfcbcdb20e2a71dd360fed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 100/102] fix: a completed streaming chat is not reported as an
 error

---
 include/HXLibs/ai/openai.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/ai/openai.hpp b/include/HXLibs/ai/openai.hpp
index 3b8b609..9c756ba 100644
--- a/include/HXLibs/ai/openai.hpp
+++ b/include/HXLibs/ai/openai.hpp
@@ -182,11 +182,13 @@ public:
         std::string bodyStr;
         body.stream = true;
         reflection::toJson(body, bodyStr);
-        co_return co_await _cli.template coSseLoop<net::POST>(
+        bool isDone = false;
+        auto res = co_await _cli.template coSseLoop<net::POST>(
             _cfg.baseUrl + "/chat/completions",
             [&](net::SseEvent sse) -> coroutine::Task<> {
                 using namespace std::string_view_literals;
-                if (sse.data == "[DONE]"sv) [[unlikely]] {
+                isDone = sse.data == "[DONE]"sv;
+                if (isDone) [[unlikely]] {
                     co_return;
                 }
                 ChatCompletionChunk chunk;
@@ -197,6 +199,10 @@ public:
             std::move(bodyStr),
             net::HttpContentType::Json
         );
+        if (isDone) [[likely]] { // 流已经完整, 之后的连接断开不是错误
+            res.setVal(container::NonVoidType<>{});
+        }
+        co_return res;
     }
 
 private:
-- 
2.43.0


From 5420f5bd5de39d1d041959ed9540d15fbad7f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 101/102] fix: a deeply nested JSON document is refused instead
 of exhausting the stack

---
 include/HXLibs/reflection/json/JsonRead.hpp | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 570accb..1162175 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -259,6 +259,26 @@ auto& insertOrAssign(T& t, std::string key) {
     }
 }
 
+// 对象嵌套的最大层数
+inline static constexpr std::size_t MaxDepth = 1000;
+
+/**
+ * @brief 记录对象嵌套的层数, 过深则抛出异常 (而不是耗尽栈空间)
+ */
+struct DepthGuard {
+    DepthGuard() {
+        if (_depth >= MaxDepth) [[unlikely]] {
+            throw std::runtime_error{"The objects are nested too deeply"};
+        }
+        ++_depth;
+    }
+    DepthGuard(DepthGuard const&) = delete;
+    DepthGuard& operator=(DepthGuard const&) = delete;
+    ~DepthGuard() noexcept { --_depth; }
+private:
+    inline static thread_local std::size_t _depth{};
+};
+
 struct FromJson {
     template <typename T, typename It>
         requires(std::is_same_v<bool, T>
@@ -465,7 +485,8 @@ struct FromJson {
         requires(reflection::IsReflective<T>)
     static void fromJson(T& t, It&& it, It&& end) {
         // 无需考虑根是数组的情况, 因为我们是反射库!
-        
+        [[maybe_unused]] DepthGuard guard{};
+
         // 找 { (去掉空白, 必然得是, 否则非法)
         skipWhiteSpace(it, end);
         verify<'{'>(it, end);
-- 
2.43.0


From bfbbc194bb4d01ed849f0773de06ad7e6b1bb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 102/102] fix: a connection is closed after a response that
 announces it

---
 include/HXLibs/net/protocol/http/Response.hpp   | 9 +++++++++
 include/HXLibs/net/server/ConnectionHandler.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index c18e616..0a4a9fd 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -814,6 +814,15 @@ public:
         return _io;
     }
 private:
+    /**
+     * @brief [仅服务端] 响应头是否声明了发送后断开连接
+     */
+    bool isConnectionClose() const {
+        using namespace std::string_view_literals;
+        auto it = _responseHeaders.find(CONNECTION_SV);
+        return it != _responseHeaders.end() && internal::hasToken(it->second, "close"sv);
+    }
+
     /**
      * @brief 响应行数据分类
      */
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 570fcd6..2b6d6fa 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -78,6 +78,7 @@ struct ConnectionHandler {
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
                         (it != req.getHeaders().end() && internal::hasToken(it->second, "close"sv))
                         || res._isBodyToClose // SSE
+                        || res.isConnectionClose() // 端点要求断开
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
-- 
2.43.0

