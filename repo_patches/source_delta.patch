From 20c81a1379ffead6ba908452c06b26f01d228178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 01/39] fix: enumerate: make post-increment/decrement usable,
 give the end iterator its index

---
 include/utl/enumerate.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..2a33697 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -37,13 +37,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
@@ -92,7 +92,15 @@ constexpr auto enumerate(T&& iterable) {
 
     auto end() {
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      if constexpr (std::bidirectional_iterator<TIter>) {
+        using std::begin;
+        return iterator<TIter>{
+            static_cast<std::size_t>(
+                std::distance<TIter>(begin(iterable_), end(iterable_))),
+            end(iterable_)};
+      } else {
+        return iterator<TIter>{0U, end(iterable_)};
+      }
     }
 
     T iterable_;
-- 
2.43.0


From 618ba876afc8121971d52b835671800a6a488344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 02/39] fix: is_uniform must not modify its input, empty ranges
 are uniform

---
 include/utl/is_uniform.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..e242ca1 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,26 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  for (auto pred = it1, it = std::next(it1); it != it2; pred = it, ++it) {
+    if (fn(*it) != fn(*pred)) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  for (auto pred = it1, it = std::next(it1); it != it2; pred = it, ++it) {
+    if (*it != *pred) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
-- 
2.43.0


From 5796878478f14a61d47cac65de1993f7cd98df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 03/39] fix: to_set: make the iterator form usable

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..73a1839 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, begin(s)), op);
   return s;
 }
 
-- 
2.43.0


From 0d033179b5be7ec2b667be8a6a88d218396cec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 04/39] fix: pipes: unique, take_while and iterable must not
 move out of lvalue ranges

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..a3b7112 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From e18c2c843ddf48fc81b67f75c2e2b38f88af488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 05/39] fix: pipes: take_while stops at the end of its source

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index a3b7112..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From f04e933c2cf507e8e29c7a55a53b3442a0c3b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 06/39] fix: pipes: make_range must not return a reference to a
 temporary

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..b45dbe9 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return static_cast<T&&>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From a3f5c6d64f5194e18bd8b0b94f846b7d0a3b337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 07/39] fix: pipes: all(begin, end) must not keep references to
 the caller's iterators

---
 include/utl/pipes/all.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/all.h b/include/utl/pipes/all.h
index 49dfdcc..7250b6c 100644
--- a/include/utl/pipes/all.h
+++ b/include/utl/pipes/all.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <initializer_list>
+#include <type_traits>
 #include <utility>
 
 #include "utl/clear_t.h"
@@ -21,8 +22,8 @@ auto all(Container& c) {
 
 template <typename BeginIt, typename EndIt>
 auto all(BeginIt&& a, EndIt&& e) {
-  return range<BeginIt, EndIt>{std::forward<BeginIt>(a),
-                               std::forward<EndIt>(e)};
+  return range<std::decay_t<BeginIt>, std::decay_t<EndIt>>{
+      std::forward<BeginIt>(a), std::forward<EndIt>(e)};
 }
 
 template <typename Container>
-- 
2.43.0


From e352bf59665e0880735c8b5cc3237df6ddd3f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 08/39] fix: pipes: avg of negative and fractional elements

---
 include/utl/pipes/avg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..0e99af1 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -9,15 +9,15 @@ namespace utl {
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
+    auto sum = 0.0;
     auto count = std::size_t{0};
     auto it = r.begin();
     while (r.valid(it)) {
-      sum += r.read(it);
+      sum += static_cast<double>(r.read(it));
       ++count;
       r.next(it);
     }
-    return static_cast<double>(sum) / static_cast<double>(count);
+    return sum / static_cast<double>(count);
   }
 };
 
-- 
2.43.0


From 2bb5d07fa1fdf94a499c8a52df18acc514762607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/39] fix: printable_enum: no trailing blanks in names

---
 include/utl/printable_enum.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..82f425d 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <iterator>
 #include <string>
 
 #define PRINTABLE_ENUM(name, ...)                                    \
@@ -17,6 +18,9 @@
       start = c;                                                     \
       c = std::find(std::next(c), end(s), ',');                      \
     }                                                                \
+    while (c != start && *std::prev(c) == ' ') {                     \
+      --c;                                                           \
+    }                                                                \
     return {start, c};                                               \
   }                                                                  \
   inline std::ostream& operator<<(std::ostream& out, name const v) { \
-- 
2.43.0


From 5ba56c8e1574757fb1f2747d43bb0e3ed5240392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 10/39] fix: iterator_facade: accept the iterator's own
 sentinel_type

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..6e113d7 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
-- 
2.43.0


From 1975c4efebc050d1c0afe85f6878b8d476cd409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 11/39] fix: iterator_facade: advance()-only iterators and
 wrappers of non-random-access iterators

---
 include/utl/iterator_facade.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 6e113d7..fe6e81d 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -105,7 +105,8 @@ iter_has_advance_method<T>;
 template <typename T>
 concept iter_is_bidirectional =
 iter_is_random_access<T> ||
-iter_has_decrement_method<T>;
+iter_has_decrement_method<T> ||
+iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
@@ -267,19 +268,19 @@ public:
 
   /**
    * Advance the iterator one position forward. Implemented as a call to
-   * `.increment()`, if present, otherwise `*this += 1`
+   * `.increment()`, if present, otherwise `.advance(1)`
    */
   constexpr self_type& operator++() noexcept {
     if constexpr (detail::iter_has_increment_method<self_type>) {
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +305,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
@@ -473,16 +474,21 @@ public:
   iterator_wrapper_facade() = default;
   explicit iterator_wrapper_facade(InnerIterator it) : wrapped_iterator(it) {}
 
+  constexpr void increment() noexcept { ++wrapped_iterator; }
+
+  // clang-format off
   template <detail::iter_diff<self_type> D>
-  constexpr void advance(D off) noexcept {
+  constexpr void advance(D off) noexcept
+  requires std::is_base_of_v<
+      std::bidirectional_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     std::advance(wrapped_iterator, off);
   }
 
-  // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From b512b1dad64474ecad9b62de9a14fe1ca10b2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 12/39] fix: generator: own the coroutine frame (move only),
 make the header self-contained

---
 include/utl/generator.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..86369c0 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,10 @@
+#pragma once
+
+#include <concepts>
 #include <coroutine>
 #include <exception>
+#include <utility>
+#include <vector>
 
 namespace utl {
 
@@ -27,7 +32,28 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)}, full_{std::exchange(o.full_, false)} {}
+
+  generator& operator=(generator&& o) noexcept {
+    if (this != &o) {
+      if (h_) {
+        h_.destroy();
+      }
+      h_ = std::exchange(o.h_, nullptr);
+      full_ = std::exchange(o.full_, false);
+    }
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From b50d0b424b218edd4310605fb604b5219afecda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 13/39] fix: finally: exactly one cleanup per guard across
 moves

---
 include/utl/raii.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..412103d 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,18 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::move(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      destruct_ = std::move(o.destruct_);
+      exec_ = std::exchange(o.exec_, false);
+    }
     return *this;
   }
 
-- 
2.43.0


From 38a6d1a5602c98329b4cc69181c72549c3f0381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 14/39] fix: buffer: move assignment must free the old memory
 and survive self-moves

---
 include/utl/parser/buffer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..4529016 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From 78eff7450e94e4189fd5894ee673f5a61b8434d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 15/39] fix: buffer: resize to zero

---
 include/utl/parser/buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 4529016..cdfc802 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -58,7 +58,11 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    if (new_size == 0) {
+      std::free(buf_);
+      buf_ = nullptr;
+      size_ = 0;
+    } else if (void* tmp = std::realloc(buf_, new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From 088ec3a58ff6436b9d0c447d386fc0fa410e4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 16/39] fix: file: own the handle (move only)

---
 include/utl/parser/file.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..43d91c7 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -135,6 +135,7 @@ struct file {
 };
 #else
 #include <cstdio>
+#include <utility>
 
 #include "utl/parser/buffer.h"
 #include "utl/verify.h"
@@ -147,6 +148,23 @@ struct file {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    if (this != &o) {
+      if (f_ != nullptr) {
+        fclose(f_);
+      }
+      f_ = std::exchange(o.f_, nullptr);
+      filename_ = std::move(o.filename_);
+    }
+    return *this;
+  }
+
   ~file() {
     if (f_ != nullptr) {
       fclose(f_);
-- 
2.43.0


From 04c64bce97165712a44306e0d2d1139fb4a56324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 17/39] fix: mmap_reader: move assignment releases the old
 mapping and descriptor

---
 include/utl/parser/mmap_reader_unix.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..2819265 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,15 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      if (this != &o) {
+        if (fd_ != -1) {
+          close(fd_);
+        }
+        fd_ = o.fd_;
+        size_ = o.size_;
+        o.fd_ = -1;
+        o.size_ = 0;
+      }
       return *this;
     }
 
@@ -76,16 +81,21 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      if (this != &o) {
+        unmap();
+        f_ = std::move(o.f_);
+        fmap_ = o.fmap_;
+        o.fmap_ = nullptr;
+      }
       return *this;
     }
 
     memory_map(memory_map const&) = delete;
     memory_map& operator=(memory_map const&) = delete;
 
-    ~memory_map() {
+    ~memory_map() { unmap(); }
+
+    void unmap() {
       if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
         munmap(fmap_, f_.size_);
       }
-- 
2.43.0


From 9584d368f19a05258f478738923fc991dbc142d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 18/39] fix: mmap_reader: support empty files

---
 include/utl/parser/mmap_reader_unix.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index 2819265..5a26e21 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -68,8 +68,10 @@ struct mmap_reader {
   struct memory_map {
     explicit memory_map(char const* path)
         : f_{path},
-          fmap_{static_cast<char*>(
-              mmap(nullptr, f_.size_, PROT_READ, MAP_PRIVATE, f_.fd_, 0))} {
+          fmap_{f_.size_ == 0 ? nullptr
+                              : static_cast<char*>(
+                                    mmap(nullptr, f_.size_, PROT_READ,
+                                         MAP_PRIVATE, f_.fd_, 0))} {
       if (fmap_ == MAP_FAILED) {  // NOLINT
         throw std::runtime_error("cannot memory map file");
       }
@@ -145,7 +147,9 @@ struct mmap_reader {
   }
 
   float progress() const {
-    return (it_ - m_.ptr()) / static_cast<float>(m_.size());
+    return m_.size() == 0
+               ? 1.0F
+               : (it_ - m_.ptr()) / static_cast<float>(m_.size());
   }
 
   memory_map m_;
-- 
2.43.0


From 27e76518411a4953e6e35eadf7dae124d6ba5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 19/39] fix: cstr equality compares bytes behind a NUL
 character

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..4b43c6b 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From f15202378131a39657f78fcbbba067f049c4f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 20/39] fix: clamp cstr::substr(begin) to the text

---
 include/utl/parser/cstr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 4b43c6b..bba1e96 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -86,7 +86,10 @@ struct cstr {
     auto const adjusted_end = std::min(end, len);
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const {
+    auto const adjusted_begin = std::min(begin, len);
+    return {str + adjusted_begin, len - adjusted_begin};
+  }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From 6684f630dfa7aa11a3f47580c37901ef8799355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 21/39] fix: line_iterator operator+ returns the advanced
 iterator

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index bba1e96..14cd0d7 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -231,7 +231,7 @@ struct line_iterator {
   }
   line_iterator operator+(difference_type const n) {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From 65a726db5abc718a4f962f6edcf6d0d3ec0178b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 22/39] fix: skip_lines on texts with carriage returns

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 14cd0d7..825e264 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -274,8 +274,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From b2f1fa2b36a4dd79abdcc5971efd1a65fcc6f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 23/39] fix: include iostream for std::cin

---
 include/utl/for_each_line_in_file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/for_each_line_in_file.h b/include/utl/for_each_line_in_file.h
index d2e7f0c..de24357 100755
--- a/include/utl/for_each_line_in_file.h
+++ b/include/utl/for_each_line_in_file.h
@@ -1,6 +1,7 @@
 #pragma once
 
-#include <fstream>
+#include <fstream>
+#include <iostream>
 #include <istream>
 #include <string>
 
-- 
2.43.0


From 82f16452c3fbaaa0ab0b58d4a861866fd266ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 24/39] fix: parse integers without signed overflow

---
 include/utl/parser/arg_parser.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..a50d0ff 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <filesystem>
 #include <string>
+#include <type_traits>
 
 #include "cista/containers/string.h"
 
@@ -16,10 +17,12 @@ inline bool parse_arg(
     cstr& s, IntType& arg,
     typename std::enable_if<std::is_integral<IntType>::value, IntType>::type
         default_value = 0) {
-  IntType sign = 1;
+  using Unsigned = std::make_unsigned_t<IntType>;
+
+  [[maybe_unused]] auto negative = false;
   if constexpr (std::is_signed_v<IntType>) {
     if (s && s[0] == '-') {
-      sign = -1;
+      negative = true;
       ++s;
     }
   }
@@ -28,14 +31,14 @@ inline bool parse_arg(
     ++s;
   }
 
-  arg = 0;
+  auto value = Unsigned{0U};
   bool value_okay = false;
   while (s) {
     char c = *s.str;
     if (c > '9' || c < '0') {
       break;
     }
-    arg = arg * 10 + static_cast<IntType>(c - '0');
+    value = static_cast<Unsigned>(value * 10U + static_cast<Unsigned>(c - '0'));
     value_okay = true;
     ++s;
   }
@@ -43,7 +46,8 @@ inline bool parse_arg(
   if (!value_okay) {
     arg = default_value;
   } else {
-    arg *= sign;
+    arg = static_cast<IntType>(negative ? static_cast<Unsigned>(0U - value)
+                                        : value);
   }
 
   return value_okay && s.empty();
-- 
2.43.0


From ebc56314f26da835546bce0785f6bb86de17f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 25/39] fix: parse large integer parts of floating point
 numbers

---
 include/utl/parser/arg_parser.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index a50d0ff..e172518 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -66,9 +66,15 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
-  v = static_cast<T>(pre_point);
+  if (s && *s.str == '+') {
+    ++s;
+  }
+
+  v = T{0.0};
+  while (s && *s.str >= '0' && *s.str <= '9') {
+    v = v * 10 + static_cast<T>(*s.str - '0');
+    ++s;
+  }
   if (s.len == 0) {
     v *= sign;
     return true;
-- 
2.43.0


From 3b901191ff849fed3805fb138d2920c5ffffc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 26/39] fix: path arguments end where the view ends

---
 include/utl/parser/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index e172518..a3b76c6 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -145,7 +145,7 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.view(); }
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 422e695871c5c70bd7bb3572955fbe4563a6b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 27/39] fix: csv columns with an unterminated quote

---
 include/utl/parser/csv.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..1554210 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,7 +27,7 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  auto content_end = s.end();
   while (s) {
     char c = *s.str;
 
@@ -38,10 +38,10 @@ inline void parse_column(cstr& s, T& arg) {
     }
 
     if (c == end || c == '\r' || c == '\n' || s.len == 0) {
+      content_end = s.str;
       if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
@@ -50,9 +50,7 @@ inline void parse_column(cstr& s, T& arg) {
     }
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  arg.assign(begin.str, static_cast<size_t>(content_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From c53ed1ea2789bd9b77f99f61875ce5e13f383ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 28/39] fix: parallel_for reports the index of the failed job

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..7eee386 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From 6d99133cb3754f568cf382317e5371c1913f87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 29/39] fix: parallel_for runs its jobs if the hardware
 concurrency is unknown

---
 include/utl/parallel_for.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 7eee386..50e740d 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,8 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < thread_count; ++i) {
     threads.emplace_back([&]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +78,8 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < thread_count; ++i) {
     threads.emplace_back([&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
-- 
2.43.0


From 933ca07b69d7eaf51a330e6fd305ea9e5045154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 30/39] fix: thread_pool has a worker if the hardware
 concurrency is unknown

---
 include/utl/thread_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..52f820b 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,7 +1,8 @@
 #pragma once
 
-#include <condition_variable>
+#include <algorithm>
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <mutex>
 #include <thread>
@@ -21,7 +22,9 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    auto const thread_count =
+        std::max(1U, std::thread::hardware_concurrency());
+    for (auto i = 0U; i < thread_count; ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From d0314cd11c1aa5ee70e9e2a8341c889f4d8ab8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 31/39] fix: progress of a tracker with nothing to do

---
 src/progress_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..7c3bc4c 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,8 +120,10 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
+  auto const in_ratio =
+      in_high_ == 0U ? 1.F
+                     : static_cast<float>(static_cast<double>(in_) /
+                                          static_cast<double>(in_high_));
 
   auto const new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-- 
2.43.0


From d610007f19b18ad602359e7e16102f5890d66a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 32/39] fix: concurrent progress updates do not leave a stale
 value

---
 src/progress_tracker.cc | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 7c3bc4c..eb22e37 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,18 +120,30 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio =
-      in_high_ == 0U ? 1.F
-                     : static_cast<float>(static_cast<double>(in_) /
-                                          static_cast<double>(in_high_));
-
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
-    callback_(*this);
+
+  // repeat if the input changed in between: otherwise, a stale value could
+  // replace the one of a concurrent update
+  auto in = in_.load();
+  while (true) {
+    auto const in_ratio =
+        in_high_ == 0U ? 1.F
+                       : static_cast<float>(static_cast<double>(in) /
+                                            static_cast<double>(in_high_));
+
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    auto const old_out = out_.exchange(new_out);
+    if (old_out != new_out) {
+      callback_(*this);
+    }
+
+    auto const current_in = in_.load();
+    if (current_in == in) {
+      break;
+    }
+    in = current_in;
   }
 }
 
-- 
2.43.0


From 325ba350230427adc58d5293cf8a62ee45d317bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 33/39] fix: parsing "false" yields false whatever the default

---
 include/utl/parser/arg_parser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index a3b76c6..1f8e370 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -131,6 +131,9 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
                      std::tolower(s[2]) == 'l' &&  //
                      std::tolower(s[3]) == 's' &&  //
                      std::tolower(s[4]) == 'e';
+    if (ret) {
+      b = false;
+    }
     for (int i = 0; i < 5 && s; ++i, ++s);
     return ret;
   }
-- 
2.43.0


From 884b1e53bc5a3c9ec49c1a4098df533ec2e7ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 34/39] fix: sort_by.h had no include guard

---
 include/utl/sort_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..afd904b 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -1,4 +1,4 @@
-#include <vector>
+#pragma once
 
 #include <algorithm>
 #include <tuple>
-- 
2.43.0


From 2731ebc70c13061141ec221fb4328e33d06c05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 35/39] fix: sort_by accepts const collections

---
 include/utl/sort_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index afd904b..d7e7b7e 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -29,7 +29,7 @@ std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> sort_by(SortBy&& order,
             [&](auto&& a, auto&& b) { return order[a] < order[b]; });
   std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};
   std::apply(
-      [&](SortBy& first, Ts&... rest) {
+      [&](auto& first, auto&... rest) {
         apply_permutation(permutation, order, first);
         (apply_permutation(permutation, ts, rest), ...);
       },
-- 
2.43.0


From 8e39de5c3891573db8726b00c84edc239c8216a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 36/39] fix: is_uniform(collection, function) could never be
 selected

---
 include/utl/is_uniform.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index e242ca1..c6da0b9 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -19,7 +19,9 @@ bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
 }
 
 template <typename It1, typename It2>
-bool is_uniform(It1&& it1, It2&& it2) {
+auto is_uniform(It1&& it1, It2&& it2)
+    -> std::enable_if_t<std::is_convertible_v<decltype(it1 == it2), bool>,
+                        bool> {
   if (it1 == it2) {
     return true;
   }
@@ -39,8 +41,9 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+auto is_uniform(Collection&& c, Predicate&& fn)
+    -> std::enable_if_t<
+        std::is_invocable_v<Predicate, decltype(*std::begin(c))>, bool> {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From 4970bb02469f1054722dd8c62379b03d8c508dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 37/39] fix: utl::file leaked the opened handle if copying its
 name failed

---
 include/utl/parser/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 43d91c7..871f279 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -144,7 +144,8 @@ namespace utl {
 
 struct file {
   file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, filename_{path} {
+      : f_{nullptr}, filename_{path} {
+    f_ = std::fopen(path, mode);
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
-- 
2.43.0


From ebfb661385232f7cc7496885acf8c867e7a7c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 38/39] fix: utl::all of a temporary must not brace-initialise
 its copy

---
 include/utl/pipes/all.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/all.h b/include/utl/pipes/all.h
index 7250b6c..f51e960 100644
--- a/include/utl/pipes/all.h
+++ b/include/utl/pipes/all.h
@@ -34,7 +34,7 @@ struct holding_range {
   using begin_t = typename Container::const_iterator;
   using end_t = typename Container::const_iterator;
 
-  explicit holding_range(Container&& c) : c_{std::forward<decltype(c)>(c)} {}
+  explicit holding_range(Container&& c) : c_(std::forward<decltype(c)>(c)) {}
 
   auto begin() const { return c_.begin(); }
   auto end() const { return c_.end(); }
-- 
2.43.0


From 055f362207abf200172cdfbc9e7701835b5a3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 39/39] fix: unique remembers the preceding element without
 assigning to it

---
 include/utl/pipes/unique.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 487e67f..a0dc06a 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <optional>
 #include <utility>
 
 #include "utl/clear_t.h"
@@ -15,11 +16,11 @@ struct unique_range : public clear_t<Range> {
 
   template <typename It>
   void find(It& it) {
-    while (this->valid(it) && parent_t::read(it) == pred_) {
+    while (this->valid(it) && parent_t::read(it) == *pred_) {
       parent_t::next(it);
     }
     if (this->valid(it)) {
-      pred_ = parent_t::read(it);
+      pred_.emplace(parent_t::read(it));
     }
   }
 
@@ -32,12 +33,12 @@ struct unique_range : public clear_t<Range> {
   auto begin() {
     auto it = parent_t::begin();
     if (this->valid(it)) {
-      pred_ = parent_t::read(it);
+      pred_.emplace(parent_t::read(it));
     }
     return it;
   }
 
-  mutable typename parent_t::result_t pred_{};
+  std::optional<typename parent_t::result_t> pred_;
 };
 
 struct unique_t {
-- 
2.43.0

