From 5c463f294717becffdf12a0d8c3a36546e28d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/63] fix: make select and as_tuple compile on conforming
 C++17 compilers

select used reference parameters in constant expressions and the rvalue
overloads of as_tuple tried to bind their reference result to an lvalue, so
that no file including select.h compiled with gcc 13 or clang.
---
 src/arpc/mpt.h    |  8 ++++----
 src/arpc/select.h | 16 +++++-----------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..89170e9 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -94,6 +94,7 @@ template <typename T>
 struct select_input_helper<awaitable<T>> {
   using result_type = result_holder<T>;
   static constexpr bool has_static_size = true;
+  static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
@@ -198,15 +199,6 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
   return pollfds_index_helper(awaitables, mpt::make_index_sequence<idx>{});
 }
 
-template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
-  return (... && select_input<Args>::has_static_size);
-}
-
-template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
-  return (0 + ... + select_input<Args>::static_size);
-}
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
@@ -226,8 +218,10 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
+  // A reference parameter can't be used in a constant expression, so whatever
+  // needs to be known at compile time is derived from the types only.
+  if constexpr ((... && select_input<Args>::has_static_size)) {
+    constexpr std::size_t size = (0 + ... + select_input<Args>::static_size);
     std::array<pollfd, size> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
-- 
2.43.0


From f488b9364ad2f57297b8e4a77eac3b41758a967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 02/63] fix: let fixed-size arrays be decoded

std::array matches both the contiguous sequence overload and the one for
bindable aggregates, so that any decoder call with one was ambiguous and did
not compile, while encoding it works.
---
 src/arpc/binary_codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..15256dd 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -467,7 +467,8 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From f6cee5dc71f8bc8c7f7d38de4b780698b2e14d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 03/63] fix: decode sizes and ids of 128 and more

The encoder writes the 7-bit groups starting from the least significant one,
but the decoder put them together in the opposite order, so that anything
with 128 or more elements (or objects) did not survive a round trip.
---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 15256dd..32ac178 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,12 +595,18 @@ class binary_decoder {
   //
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
+    constexpr int digits = std::numeric_limits<std::size_t>::digits;
     std::size_t l = 0;
+    int shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      const std::size_t bits = o & 0x7f;
+      if (shift >= digits || ((bits << shift) >> shift) != bits) {
+        throw errors::data_mismatch("Number in stream is too large");
+      }
+      l |= bits << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From 25e6e601ab7a5a54bd658d80734848a916fa0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 04/63] fix: keep the first of equal elements when a flat
 container is built from a range

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..ce598ea 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -175,7 +175,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -191,7 +191,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -211,7 +211,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From c125f64c8e5901a9b801612311b5da8cddb35b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 05/63] fix: flat containers keep their comparator when copied,
 moved or swapped

---
 src/arpc/container/detail/flat_tree.h | 33 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index ce598ea..a231f4a 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -157,20 +157,29 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::size;
 
   using underlying_container::clear;
-  using underlying_container::swap;
 
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    using std::swap;
+    underlying_container::swap(other);
+    swap(comp_, other.comp_);
+    swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
-    underlying_container::operator=(std::forward<flat_tree>(other));
+    underlying_container::operator=(
+        static_cast<underlying_container&&>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +206,22 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other), alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From b17d5c1b37f524940d425991f556c7e2c496f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 06/63] fix: tell apart shared objects that use the same
 address

---
 src/arpc/binary_codecs.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 32ac178..aee5f74 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -161,14 +161,20 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    // Objects of different types may share an address (like a struct and its
+    // first member).
+    const shared_object_key key(
+        p.get(), registry::get_type_id<std::remove_cv_t<T>>());
+    auto it = shared_object_map_.find(key);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
-      std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      std::size_t next_object_id = shared_object_map_.size() + 1;
+      it = shared_object_map_
+               .emplace(key, seen_object_info{next_object_id, p})
+               .first;
       first_time = true;
     }
-    write_variant(it->second);
+    write_variant(it->second.object_id);
     if (first_time) {
       save_object_reference(*p);
     }
@@ -188,6 +194,15 @@ class binary_encoder {
         encoder_function;
   };
 
+  using shared_object_key = std::pair<const void*, registry::type_id>;
+
+  struct seen_object_info {
+    std::size_t object_id;
+    // Keeps the object alive, so that its address can't be reused while it
+    // stands for this object.
+    std::shared_ptr<const void> ptr;
+  };
+
   // Save potentially short integers in a compact form.
   //
   // Use the highest bit in each byte to determine whether more bytes come
@@ -344,7 +359,7 @@ class binary_encoder {
   // Here we depend on portable_class_name() returning identical pointers for
   // speed.
   arpc::flat_map<std::string_view, seen_class_info> class_info_map_;
-  arpc::flat_map<const void*, std::size_t> shared_object_map_ = {{nullptr, 0}};
+  arpc::flat_map<shared_object_key, seen_object_info> shared_object_map_;
 
  protected:
   output_stream& out_;
-- 
2.43.0


From 503fec127a14e70013f908ffa868418ef2d1f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 07/63] fix: reject references to objects that could not be
 decoded

---
 src/arpc/binary_codecs.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index aee5f74..233aa29 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -574,8 +574,9 @@ class binary_decoder {
       // Deserialize the object the first time.
       load_object_reference(p, update_pointer(object_info.ptr));
     } else {
-      // Check for type compatibility.
-      if (object_info.type_id != registry::get_type_id<T>() ||
+      // Check for type compatibility. There's no object at all if decoding it
+      // failed.
+      if (!object_info.ptr || object_info.type_id != registry::get_type_id<T>() ||
           !registry::check_dynamic_compatibility<T>(object_info.ptr.get())) {
         // We recorded an incompatible type when we saw this object before,
         // or the object's dynamic type can't be stored in this pointer.
-- 
2.43.0


From 51566ea836d113aa686992c0e6dbd910b43d0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 08/63] fix: compare the whole class name read from the input

---
 src/arpc/binary_codecs.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 233aa29..bd62752 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -650,9 +650,9 @@ class binary_decoder {
       (*this)(type_hash);
       registry::dynamic_object_factory::info class_info;
       typename registry::dynamic_decoder_registry<MyClass>::info decoder_info;
-      class_info = registry::dynamic_object_factory::get()[class_name.c_str()];
+      class_info = registry::dynamic_object_factory::get()[class_name];
       decoder_info = registry::dynamic_decoder_registry<
-          MyClass>::get()[class_name.c_str()];
+          MyClass>::get()[class_name];
       if (type_hash != class_info.type_hash) {
         throw errors::data_mismatch("Wrong type hash in dynamic class");
       }
@@ -666,7 +666,7 @@ class binary_decoder {
 
     // Check that the subclass is compatible (slow).
     if (!registry::dynamic_subclass_registry<T>::get().is_subclass(
-            info.class_name.c_str()))
+            info.class_name))
       throw errors::data_mismatch(
           "The class that was read is not a subclass of pointed-to type");
 
-- 
2.43.0


From 8fd853ad664bdcaa19813db0343b3b594513527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 09/63] fix: fingerprint classes that contain themselves
 through containers

---
 src/arpc/type_hash.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..da4b6c2 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -145,22 +145,23 @@ struct new_type_hash {
       return type_hash_add(
           type_hash_leaf(detail::type_family::MAP,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_set_v<T>) {
       return type_hash_add(
           type_hash_leaf(detail::type_family::SET,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_const_iterable_v<T>) {
       if constexpr (has_static_size_v<T>) {
         return type_hash_add(
             type_hash_leaf(detail::type_family::ARRAY, false, static_size_v<T>),
             type_hash_v<typename std::iterator_traits<decltype(
-                std::begin(std::declval<T&>()))>::value_type>);
+                            std::begin(std::declval<T&>()))>::value_type,
+                        Seen>);
       } else {
         return type_hash_add(
             type_hash_leaf(detail::type_family::SEQUENCE, false, 0),
-            type_hash_v<writable_value_type_t<typename T::value_type>>);
+            type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
       }
     } else if constexpr (can_be_serialized_v<T>) {
       return type_hash_add(
@@ -179,7 +180,7 @@ struct new_type_hash {
                          get_custom_serialization_version_v<T>));
     } else if constexpr (is_bindable_aggregate_v<T>) {
       // Hash as a tuple.
-      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>()))>;
+      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>())), Seen>;
     } else {
       return unknown_hash<T>();
     }
-- 
2.43.0


From 8acacb980af07071e56568b2fed7f7233f5d9d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 10/63] fix: unframe empty packets and packets ending in a full
 group

---
 src/arpc/packet_codecs.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..0b2902b 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,10 +119,14 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
+  std::size_t count = 0;
   while (src < data.end()) {
-    std::size_t count = static_cast<std::uint8_t>(*src++) - 1;
+    count = static_cast<std::uint8_t>(*src++) - 1;
     for (std::size_t i = 0; i < count; i++) {
       if (src >= data.end()) {
         throw errors::data_mismatch("Truncated COBS-encoded data");
@@ -133,6 +137,7 @@ void cobs_codec::decode(std::string& data) {
       *dst++ = '\0';
     }
   }
-  data.resize((dst - data.begin()) - 1);
+  // The last group stands for the zero past the end, unless it is a full one.
+  data.resize((dst - data.begin()) - (count < 254 ? 1 : 0));
 }
 }  // namespace arpc
-- 
2.43.0


From 4545df976f26243a70f081dd30863ba8d420732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 11/63] fix: make emplace_hint of unique flat containers
 compile

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index a231f4a..18e8436 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -312,7 +312,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From 214acfe3c8ee30d044883276c6e185f2c4b9710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 12/63] fix: keep the comparator when a flat container is
 assigned a list

---
 src/arpc/container/flat_map.h | 8 ++++++++
 src/arpc/container/flat_set.h | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..846bc4d 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -49,6 +49,10 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
 
+  // Keep assignment from an initializer list visible.
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
+
   // operator []
   T& operator[](const Key& key) {
     auto it = this->lower_bound(key);
@@ -101,6 +105,10 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+
+  // Keep assignment from an initializer list visible.
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..ffa8b53 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,9 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+
+  // Keep assignment from an initializer list visible.
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +60,9 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+
+  // Keep assignment from an initializer list visible.
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 2df1e20c6f3eba60772db37d7ac3b39b6d5af72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 13/63] fix: free the storage of an address as what it was
 allocated as

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From f452ea83c04c15fb90a77c2632cd6040a3fee2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 14/63] fix: let a moved-from address be copied

---
 src/arpc/address.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 10289b3..9ae8804 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -89,7 +89,8 @@ address::address(const address& other)
           reinterpret_cast<struct sockaddr*>(new struct sockaddr_storage()),
           nullptr,
           this} {
-  memcpy(ai_addr, other.ai_addr, ai_addrlen);
+  // A moved-from address has no data.
+  if (ai_addrlen) memcpy(ai_addr, other.ai_addr, ai_addrlen);
 }
 
 address::address(address&& other)
-- 
2.43.0


From a88d94c3084931887214fb988977ef1d426ce3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 15/63] fix: constructing a result holder from a variable
 leaves the variable alone

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From 3ad56b082d7a496dd2c5ea745577795b68cc6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 16/63] fix: storing in a result holder replaces what it held

---
 src/arpc/result_holder.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 274103c..e6c2928 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -81,9 +81,13 @@ class result_holder : public serializable<result_holder<T>> {
   template <typename U>
   void set_value(U&& u) {
     value_ = std::forward<U>(u);
+    exception_ = nullptr;
   }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    value_.reset();
+    exception_ = exception;
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
@@ -223,9 +227,15 @@ class result_holder<void> : public serializable<result_holder<void>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
 
-  void set_value() { value_ = true; }
+  void set_value() {
+    value_ = true;
+    exception_ = nullptr;
+  }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    value_ = false;
+    exception_ = exception;
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
-- 
2.43.0


From 881e9cf604f3e8f0ea29f9e1b6cbc1a351c080db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 17/63] fix: decode booleans to valid ones

---
 src/arpc/binary_codecs.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index bd62752..c595823 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -790,6 +790,13 @@ class binary_decoder {
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
     in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      // Any byte can come in, but only two of them are booleans.
+      const unsigned char* bytes = reinterpret_cast<unsigned char*>(p);
+      for (std::size_t i = 0; i < l; i++) {
+        p[i] = bytes[i] != 0;
+      }
+    }
   }
 
   std::vector<seen_class_info> class_info_vector_;
-- 
2.43.0


From 4af53994f7127fb8222b2d0da9e0dfd4f49ce354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 18/63] fix: guard the pointer of a usage lock and outlive its
 last notification

---
 src/arpc/usage_lock.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..e44d1cd 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <string_view>
+#include <utility>
 #include "arpc/errors.h"
 
 namespace arpc {
@@ -45,35 +46,47 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    release();
+    std::shared_ptr<T> guarded(ptr, [this](T*) {
+      // Notify with the lock held: once the waiter in drop() gets it, this
+      // object may be gone.
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
     });
     std::scoped_lock lock(mu_);
+    ptr_ = std::move(guarded);
     done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    release();
     std::unique_lock lock(mu_);
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
+  // Give up our own reference, without holding the lock that the deleter needs.
+  void release() {
+    std::shared_ptr<T> old;
+    std::scoped_lock lock(mu_);
+    old.swap(ptr_);
+  }
+
   const char* const message_;
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
-- 
2.43.0


From 41a01567a354c06e62ee00c3dddd0d679226c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 19/63] fix: measure timeouts from the start of the wait and
 never cut them short

---
 src/arpc/awaitable.h |   6 +-
 src/arpc/context.cpp |   2 +-
 src/arpc/select.h    | 142 ++++++++++++++++++++++---------------------
 3 files changed, 76 insertions(+), 74 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 1871208..c478381 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -107,19 +107,19 @@ awaitable<void> always();
 template <typename Rep, typename Period>
 awaitable<void> timeout(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration));
+      std::chrono::ceil<std::chrono::milliseconds>(duration));
 }
 
 template <typename Rep, typename Period>
 awaitable<void> polling(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration), true);
+      std::chrono::ceil<std::chrono::milliseconds>(duration), true);
 }
 
 template <typename Clock, typename Duration>
 awaitable<void> deadline(const std::chrono::time_point<Clock, Duration>& when) {
   std::chrono::milliseconds delta =
-      std::chrono::duration_cast<std::chrono::milliseconds>(
+      std::chrono::ceil<std::chrono::milliseconds>(
           when - std::chrono::system_clock::now());
   return awaitable<void>(std::max(std::chrono::milliseconds::zero(), delta));
 }
diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..3c20a44 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -134,7 +134,7 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
+  set_deadline(std::chrono::ceil<context::duration>(
       std::chrono::system_clock::now() + timeout));
 }
 
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 89170e9..d710661 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -32,6 +32,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -46,15 +47,31 @@ namespace arpc {
 
 namespace detail {
 
+// Time left until the timeout of an awaitable expires, given the time elapsed
+// since the wait started, or negative if it has none. Polling ones expire every
+// time their period elapses.
+template <typename A>
+std::chrono::milliseconds timeout_left(const A& a, std::chrono::milliseconds elapsed) {
+  auto timeout = a.timeout();
+  if (timeout > std::chrono::milliseconds::zero()) {
+    if (a.for_polling()) {
+      timeout -= elapsed % timeout;
+    } else {
+      timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
+    }
+  }
+  return timeout;
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
-                                                              std::chrono::milliseconds min_timeout,
-                                                              bool min_timeout_is_polling) {
+                                                              std::chrono::milliseconds elapsed,
+                                                              std::chrono::milliseconds waited) {
   bool active;
   if (was_timeout) {
-    active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+    auto timeout = timeout_left(a, elapsed);
+    active = (timeout >= std::chrono::milliseconds::zero() && timeout <= waited);
   } else {
     active = (fd.revents != 0);
   }
@@ -97,22 +114,13 @@ struct select_input_helper<awaitable<T>> {
   static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
-                                 std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+                                 std::chrono::milliseconds elapsed,
+                                 std::chrono::milliseconds waited) {
+    return make_one_select_result(a, *fd, was_timeout, elapsed, waited);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
-  static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+  static auto min_timeout(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
+    return timeout_left(a, elapsed);
   }
 };
 
@@ -122,13 +130,13 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
-                                 std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
+                                 std::chrono::milliseconds elapsed,
+                                 std::chrono::milliseconds waited) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
       res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+          make_one_select_result(a, *fd++, was_timeout, elapsed, waited));
     }
     return res;
   }
@@ -137,26 +145,18 @@ struct select_input_helper<std::vector<awaitable<T>>> {
       *fds++ = make_pollfd(a);
     }
   }
-  static auto timeout_info(const std::vector<awaitable<T>>& v, std::chrono::milliseconds elapsed) {
+  static auto min_timeout(const std::vector<awaitable<T>>& v, std::chrono::milliseconds elapsed) {
     auto min_timeout = std::chrono::milliseconds(-1);
-    bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
-      bool is_polling = a.for_polling();
-
-      if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
-        if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-          min_timeout = timeout;
-          min_timeout_is_polling = is_polling;
-        }
+      auto timeout = timeout_left(a, elapsed);
+      if (timeout >= std::chrono::milliseconds::zero() &&
+          (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout)) {
+        min_timeout = timeout;
       }
     }
 
-    return std::pair(min_timeout, min_timeout_is_polling);
+    return min_timeout;
   }
 };
 
@@ -202,11 +202,11 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+    std::chrono::milliseconds elapsed, std::chrono::milliseconds waited,
     mpt::index_sequence<ints...>) {
   return {std::move(select_input<Args>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+      elapsed, waited))...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -244,51 +244,53 @@ template <typename... Args>
                                                                  current_context.wait_cancelled(),
                                                                  current_context.wait_deadline());
 
+  const auto start = std::chrono::steady_clock::now();
   std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
 
   do {
-    // Find whether we have a timeout to apply, and whether it's a polling one.
-    auto [min_timeout, min_timeout_is_polling] = mpt::accumulate(
-        std::pair(std::chrono::milliseconds(-1), false), a, [elapsed](auto prev, const auto& a) {
-          auto& [min_timeout, min_timeout_is_polling] = prev;
-          auto [timeout, is_polling] = detail::select_input<decltype(a)>::timeout_info(a, elapsed);
-
-          if (timeout >= std::chrono::milliseconds::zero()) {
-            if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-              min_timeout = timeout;
-              min_timeout_is_polling = is_polling;
-            }
-          }
-
-          return std::pair(min_timeout, min_timeout_is_polling);
+    // Find whether we have a timeout to apply.
+    auto min_timeout = mpt::accumulate(
+        std::chrono::milliseconds(-1), a, [elapsed](auto prev, const auto& a) {
+          auto timeout = detail::select_input<decltype(a)>::min_timeout(a, elapsed);
+          if (timeout < std::chrono::milliseconds::zero()) return prev;
+          return prev < std::chrono::milliseconds::zero() ? timeout : std::min(prev, timeout);
         });
+    constexpr auto max_poll = std::chrono::milliseconds(std::numeric_limits<int>::max());
 
     auto fds(detail::make_select_pollfds(a));
 
-    int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
+    int pres = poll(fds.data(), fds.size(),
+                    static_cast<int>(std::min(min_timeout, max_poll) / std::chrono::milliseconds(1)));
     if (pres < 0) throw_io_error("Error in select");
 
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
-
-    bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
-      return so_far || detail::select_output<decltype(val)>::is_active(val);
-    });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
+    auto now = std::chrono::duration_cast<std::chrono::milliseconds>(
+        std::chrono::steady_clock::now() - start);
+    auto waited = now - elapsed;
+
+    // Look at the timeouts only if nothing came out of the descriptors, which
+    // may keep waking us up in vain.
+    for (bool was_timeout : {false, true}) {
+      if (pres == 0 && !was_timeout) continue;
+
+      auto res(detail::make_select_result(a, fds.data(), was_timeout, elapsed, waited,
+                                          mpt::make_index_sequence<n>{}));
+
+      bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
+        return so_far || detail::select_output<decltype(val)>::is_active(val);
+      });
+      if (active) {
+        auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
+        if (cancelled) {
+          *cancelled;
+        }
+        if (deadline_exceeded) {
+          *deadline_exceeded;
+        }
+        return mpt::range<0, n - 2>(std::move(res));
       }
-      return mpt::range<0, n - 2>(std::move(res));
     }
 
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    elapsed = now;
   } while (true);
 }
 
-- 
2.43.0


From 36e66ca6958f24d063b765e06ba632f2b267cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 20/63] fix: keep waiting when the wait for events is
 interrupted

---
 src/arpc/select.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index d710661..c3f6bae 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -29,6 +29,7 @@
 #endif  // ESP_PLATFORM
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <chrono>
 #include <cstddef>
 #include <exception>
@@ -259,12 +260,19 @@ template <typename... Args>
 
     auto fds(detail::make_select_pollfds(a));
 
-    int pres = poll(fds.data(), fds.size(),
-                    static_cast<int>(std::min(min_timeout, max_poll) / std::chrono::milliseconds(1)));
-    if (pres < 0) throw_io_error("Error in select");
+    auto now = elapsed;
+    int pres;
+    do {
+      auto left = std::min(min_timeout, max_poll);
+      if (left > std::chrono::milliseconds::zero()) {
+        left = std::max(left - (now - elapsed), std::chrono::milliseconds::zero());
+      }
+      pres = poll(fds.data(), fds.size(), static_cast<int>(left / std::chrono::milliseconds(1)));
+      if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
+      now = std::chrono::duration_cast<std::chrono::milliseconds>(
+          std::chrono::steady_clock::now() - start);
+    } while (pres < 0);
 
-    auto now = std::chrono::duration_cast<std::chrono::milliseconds>(
-        std::chrono::steady_clock::now() - start);
     auto waited = now - elapsed;
 
     // Look at the timeouts only if nothing came out of the descriptors, which
-- 
2.43.0


From 238778c0c9e7792971cea0558218cdef126888ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 21/63] fix: run no reaction of a wait that ends with its
 context

---
 src/arpc/select.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index c3f6bae..cb832e0 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -201,11 +201,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
+std::tuple<typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>
+make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
     std::chrono::milliseconds elapsed, std::chrono::milliseconds waited,
     mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
+  return {std::move(select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
       elapsed, waited))...};
 }
@@ -280,21 +281,25 @@ template <typename... Args>
     for (bool was_timeout : {false, true}) {
       if (pres == 0 && !was_timeout) continue;
 
+      // The end of the context comes first, as nobody would learn about what the
+      // other reactions did.
+      auto [cancelled, deadline_exceeded] = detail::make_select_result(
+          a, fds.data(), was_timeout, elapsed, waited, mpt::index_sequence<n - 2, n - 1>{});
+      if (cancelled) {
+        *cancelled;
+      }
+      if (deadline_exceeded) {
+        *deadline_exceeded;
+      }
+
       auto res(detail::make_select_result(a, fds.data(), was_timeout, elapsed, waited,
-                                          mpt::make_index_sequence<n>{}));
+                                          mpt::make_index_sequence<n - 2>{}));
 
       bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
         return so_far || detail::select_output<decltype(val)>::is_active(val);
       });
       if (active) {
-        auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-        if (cancelled) {
-          *cancelled;
-        }
-        if (deadline_exceeded) {
-          *deadline_exceeded;
-        }
-        return mpt::range<0, n - 2>(std::move(res));
+        return res;
       }
     }
 
-- 
2.43.0


From f9336ef73142be1eceb3ad1e5f2a8d6623d5198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 22/63] fix: let flags be set and reset in contexts that are
 over

---
 src/arpc/flag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From 325b4badb8f5275083b76b6a6fd7365151b7cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 23/63] fix: let mutexes be created and released in contexts
 that are over

---
 src/arpc/mutex.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arpc/mutex.cpp b/src/arpc/mutex.cpp
index f807d12..0840e85 100644
--- a/src/arpc/mutex.cpp
+++ b/src/arpc/mutex.cpp
@@ -22,7 +22,6 @@
 #include "arpc/mutex.h"
 #include <unistd.h>
 #include <utility>
-#include "arpc/context.h"
 #include "arpc/errors.h"
 #include "arpc/pipe.h"
 #include "arpc/select.h"
@@ -33,7 +32,7 @@ mutex::mutex() {
   pipe(pipe_);
   pipe_[0].make_non_blocking();
   pipe_[1].make_non_blocking();
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 void mutex::lock() {
@@ -56,8 +55,7 @@ bool mutex::try_lock() {
 }
 
 void mutex::unlock() {
-  shield shield;
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 awaitable<void> mutex::can_lock() { return pipe_[0].can_read(); }
-- 
2.43.0


From cff39198cfc0789022eaaacb345a6d5a8d63b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 24/63] fix: report a queue as empty when it is

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 0cecfb9f7af57c1bd83b3a06bd5f0bcdf3c93cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 25/63] fix: make exception handlers of futures compile

---
 src/arpc/future.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..f5ff666 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -167,7 +167,8 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
+                                                     std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -254,7 +255,8 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
+                                                     std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From 74c70e2cd91ae5734cb025f745bfdc10f8845637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 26/63] fix: get a future's outcome even if it is a try_again
 error

---
 src/arpc/future.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index f5ff666..46bd5c0 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -160,8 +160,10 @@ class future {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
-    return std::move(*res);
+    // The outcome may be a try_again, so get it out of the wait.
+    auto [res] = select(can_get());
+    *res;
+    return maybe_get();
   }
 
   template <typename E, typename CGF>
@@ -248,8 +250,9 @@ class future<void> {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
+    auto [res] = select(can_get());
     *res;
+    maybe_get();
   }
 
   template <typename E, typename CGF>
-- 
2.43.0


From 250ccd46848e5286bd975db0050a984007a1ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 27/63] fix: make a future ready when its promise is set from a
 result holder

---
 src/arpc/future.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 46bd5c0..3554352 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,11 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +111,11 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 55824aeb5f256b65120696a58c73af74688622c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 28/63] fix: break the promise that is replaced by another

---
 src/arpc/future.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 3554352..94e9053 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -321,7 +321,13 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // Whatever we were to be used for is a broken promise now.
+    promise<value_type> old(std::move(other));
+    std::swap(state_, old.state_);
+    std::swap(future_, old.future_);
+    return *this;
+  }
 
   promise()
       : state_(
@@ -369,7 +375,13 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // Whatever we were to be used for is a broken promise now.
+    promise<value_type> old(std::move(other));
+    std::swap(state_, old.state_);
+    std::swap(future_, old.future_);
+    return *this;
+  }
 
   promise()
       : state_(
-- 
2.43.0


From c0c0d43841d661b2d5b7301279a17576329accee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 29/63] fix: keep a promise usable when its value could not be
 stored

---
 src/arpc/future.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 94e9053..c9a9b90 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -346,7 +346,14 @@ class promise {
 
   template <typename U>
   void set_value(U&& u) {
-    state()->set_value(std::forward<U>(u));
+    auto s = state();
+    try {
+      s->set_value(std::forward<U>(u));
+    } catch (...) {
+      // We still have to be set, or broken.
+      state_ = std::move(s);
+      throw;
+    }
   }
 
   void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
-- 
2.43.0


From 3e9032ff23473296a9f052bba9b29be5f205aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 30/63] fix: copy the callables that are still their owner's
 when chaining reactions

---
 src/arpc/awaitable.h |  6 +++---
 src/arpc/function.h  |  6 +++---
 src/arpc/future.h    | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index c478381..278f702 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -54,7 +54,7 @@ class awaitable {
   template <typename E, typename CRF>
   auto except(CRF&& handler_fn) {
     auto new_react_fn =
-        compose_catch<E>(std::move(react_fn_), std::move(handler_fn));
+        compose_catch<E>(std::move(react_fn_), std::forward<CRF>(handler_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
@@ -62,7 +62,7 @@ class awaitable {
 
   template <typename ORF>
   auto then(ORF&& react_fn) {
-    auto new_react_fn = compose_pipe(std::move(react_fn_), std::move(react_fn));
+    auto new_react_fn = compose_pipe(std::move(react_fn_), std::forward<ORF>(react_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
@@ -70,7 +70,7 @@ class awaitable {
 
   template <typename ORF>
   auto decorate(ORF&& react_fn) {
-    auto new_react_fn = compose_wrap(std::move(react_fn_), std::move(react_fn));
+    auto new_react_fn = compose_wrap(std::move(react_fn_), std::forward<ORF>(react_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
diff --git a/src/arpc/function.h b/src/arpc/function.h
index d74559a..1f2b4af 100644
--- a/src/arpc/function.h
+++ b/src/arpc/function.h
@@ -34,7 +34,7 @@ auto compose_pipe(OF&& of, MF&& mf) {
       std::is_same_v<original_return_type, void>, std::invoke_result<MF>,
       std::invoke_result<MF, original_return_type>>::type;
 
-  return [mof(std::move(of)), mmf(std::move(mf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mmf(std::forward<MF>(mf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<original_return_type, void>) {
       if constexpr (std::is_same_v<new_return_type, void>) {
         mof(std::forward<Args>(args)...);
@@ -57,7 +57,7 @@ template <typename... Args, typename OF, typename WF>
 auto compose_wrap(OF&& of, WF&& wf) {
   using new_return_type = std::invoke_result_t<WF, OF&, Args...>;
 
-  return [mof(std::move(of)), mwf(std::move(wf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mwf(std::forward<WF>(wf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<new_return_type, void>) {
       mwf(mof, std::forward<Args>(args)...);
     } else {
@@ -74,7 +74,7 @@ auto compose_catch(OF&& of, HF&& hf) {
                 "Exception handlers must have the same return type as the "
                 "original function");
 
-  return [mof(std::move(of)), mhf(std::move(hf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mhf(std::forward<HF>(hf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<original_return_type, void>) {
       try {
         mof(std::forward<Args>(args)...);
diff --git a/src/arpc/future.h b/src/arpc/future.h
index c9a9b90..fbcfab8 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -178,7 +178,7 @@ class future {
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
         compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
-                                                     std::move(handler_fn));
+                                                     std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -187,7 +187,7 @@ class future {
   template <typename OGF>
   auto then(OGF&& get_fn) {
     auto new_get_fn = compose_pipe<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OGF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -196,7 +196,7 @@ class future {
   template <typename OWF>
   auto decorate(OWF&& get_fn) {
     auto new_get_fn = compose_wrap<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OWF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -267,7 +267,7 @@ class future<void> {
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
         compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
-                                                     std::move(handler_fn));
+                                                     std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -276,7 +276,7 @@ class future<void> {
   template <typename OGF>
   auto then(OGF&& get_fn) {
     auto new_get_fn = compose_pipe<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OGF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -285,7 +285,7 @@ class future<void> {
   template <typename OWF>
   auto decorate(OWF&& get_fn) {
     auto new_get_fn = compose_wrap<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OWF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From 68893b0e270fdf323459f6763d8397765db16db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 31/63] fix: let no task of a thread pool be lost or overlooked

---
 src/arpc/executor.cpp | 26 ++++++++++----------------
 src/arpc/executor.h   | 31 +++++++++++++------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..b010a60 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -46,22 +46,16 @@ thread_pool::thread_pool(unsigned int num_worker_threads, int queue_size)
 
 void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
-    auto [have_pending_fn, have_slot_space] =
-        select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+    select(pending_.can_get(), slots_.can_put());
+    // Whatever woke us up, tasks already waiting take precedence over idling.
+    std::scoped_lock lock(mu_);
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..3d465ba 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -44,6 +44,8 @@ class synchronous_executor {
 };
 
 class thread_pool {
+  using fn_type = fu2::unique_function<void()>;
+
  public:
   explicit thread_pool(unsigned int num_worker_threads =
                            std::max(thread::hardware_concurrency(), 1U),
@@ -52,30 +54,23 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    fn_type fn(std::forward<F>(f));
     while (true) {
-      auto [have_slot, have_pending_space] =
-          select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+      select(slots_.can_get(), pending_.can_put());
+      // Whatever woke us up, a waiting worker takes precedence over the queue.
+      std::scoped_lock lock(mu_);
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(std::move(fn));
+        return;
       }
     }
   }
 
  private:
-  using fn_type = fu2::unique_function<void()>;
-
   void request_work(promise<fn_type> slot);
 
   std::mutex mu_;
-- 
2.43.0


From 92a0c17e325dbee8a14a4f40968781dcab0263df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 32/63] fix: leave a context alone once its last child is gone

---
 src/arpc/context.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 3c20a44..008faf9 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -78,10 +78,9 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  // The context may be gone as soon as the lock is released.
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From 1bc3d202e98cc85d7f09ecb14cc59d89318e6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 33/63] fix: keep a context's parent until its own children are
 gone

---
 src/arpc/context.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 008faf9..5bd4153 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -62,11 +62,15 @@ context::context(root)
 context::~context() {
   cancel();
 
-  if (parent_) parent_->remove_child(this);
   if (set_current_) current_ = previous_;
 
-  std::unique_lock lock(children_mu_);
-  child_detached_.wait(lock, [this]() { return children_.empty(); });
+  {
+    std::unique_lock lock(children_mu_);
+    child_detached_.wait(lock, [this]() { return children_.empty(); });
+  }
+
+  // The parent has to outlive the children too, so it's last.
+  if (parent_) parent_->remove_child(this);
 }
 
 void context::add_child(context* child) {
-- 
2.43.0


From 2480dde8bd543ba595b30ecbfea822bc931771ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 34/63] fix: let shields outlive the context they were created
 in

---
 src/arpc/context.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 5bd4153..4e9c5b8 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -38,14 +38,14 @@ context& context::top() {
 }
 
 context::context(context& parent, bool set_current, bool shield)
-    : set_current_(set_current), parent_(&parent), deadline_(std::nullopt) {
+    : set_current_(set_current),
+      parent_(shield ? nullptr : &parent),
+      deadline_(std::nullopt) {
   if (parent_) {
-    if (!shield) {
-      parent_->add_child(this);
-    }
-    deadline_ = parent_->deadline_;
-    data_ = parent_->data_;
+    parent_->add_child(this);
   }
+  deadline_ = parent.deadline_;
+  data_ = parent.data_;
 
   if (set_current_) {
     previous_ = current_;
-- 
2.43.0


From 58901203a26f22e56d59a89a31f80b7bfd3f98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 35/63] fix: file the data of a context under the class it is
 stored as

---
 src/arpc/context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/context.h b/src/arpc/context.h
index 364d369..3cfdedc 100644
--- a/src/arpc/context.h
+++ b/src/arpc/context.h
@@ -141,7 +141,7 @@ class context : public serializable<context> {
 
   template <typename T>
   void set_one(T&& t) {
-    data_[t.portable_class_name()] =
+    data_[portable_class_name<std::decay_t<T>>()] =
         std::make_shared<const std::decay_t<T>>(std::forward<T>(t));
   }
 
-- 
2.43.0


From 386a4de65e89c5d7f9729eda8c757cae8b140cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 36/63] fix: reject contexts received with empty data objects

---
 src/arpc/context.cpp | 3 +++
 src/arpc/context.h   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 4e9c5b8..b63293f 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -160,6 +160,9 @@ std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  for (const auto& it : new_data) {
+    if (!it) throw errors::data_mismatch("Empty object in the context data");
+  }
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
diff --git a/src/arpc/context.h b/src/arpc/context.h
index 3cfdedc..5ac024e 100644
--- a/src/arpc/context.h
+++ b/src/arpc/context.h
@@ -64,10 +64,10 @@ class context : public serializable<context> {
     bool cancelled;
     d(cancelled);
 
+    set_data(std::move(new_data));
     if (deadline_remaining) {
       set_timeout(*deadline_remaining);
     }
-    set_data(std::move(new_data));
     if (cancelled) cancel();
   }
 
-- 
2.43.0


From ad6212065aac73959c225394ed05f28b8ab5d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 37/63] fix: let deadlines be far away

---
 src/arpc/awaitable.h | 11 +++++++----
 src/arpc/context.cpp | 13 +++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 278f702..7da42f8 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -118,10 +118,13 @@ awaitable<void> polling(const std::chrono::duration<Rep, Period>& duration) {
 
 template <typename Clock, typename Duration>
 awaitable<void> deadline(const std::chrono::time_point<Clock, Duration>& when) {
-  std::chrono::milliseconds delta =
-      std::chrono::ceil<std::chrono::milliseconds>(
-          when - std::chrono::system_clock::now());
-  return awaitable<void>(std::max(std::chrono::milliseconds::zero(), delta));
+  // Far away times don't fit in the units of the clock.
+  using precision = std::common_type_t<Duration, std::chrono::milliseconds>;
+  const auto now =
+      std::chrono::floor<precision>(std::chrono::system_clock::now());
+  if (when <= now) return awaitable<void>(std::chrono::milliseconds::zero());
+  return awaitable<void>(
+      std::chrono::ceil<std::chrono::milliseconds>(when - now));
 }
 
 }  // namespace arpc
diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index b63293f..0188d23 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -96,8 +96,12 @@ std::optional<context::time_point> context::deadline() const {
 std::optional<context::duration> context::deadline_left() const {
   std::scoped_lock lock(data_mu_);
   if (deadline_) {
-    return std::chrono::duration_cast<duration>(
-        *deadline_ - std::chrono::system_clock::now());
+    const auto now = std::chrono::ceil<duration>(std::chrono::system_clock::now());
+    // Deadlines may be so far away that the difference would overflow.
+    if (*deadline_ < time_point::min() + now.time_since_epoch()) {
+      return duration::min();
+    }
+    return *deadline_ - now;
   } else {
     return std::nullopt;
   }
@@ -137,8 +141,9 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::ceil<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  const auto now = std::chrono::ceil<duration>(std::chrono::system_clock::now());
+  set_deadline(timeout > time_point::max() - now ? time_point::max()
+                                                 : now + timeout);
 }
 
 void context::reset_all() {
-- 
2.43.0


From c61710867bca820434b8edcf2da8229e6f73eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 38/63] fix: guard the deadline and data of contexts wherever
 they are used

---
 src/arpc/context.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 0188d23..f95b772 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -44,8 +44,11 @@ context::context(context& parent, bool set_current, bool shield)
   if (parent_) {
     parent_->add_child(this);
   }
-  deadline_ = parent.deadline_;
-  data_ = parent.data_;
+  {
+    std::scoped_lock lock(parent.data_mu_);
+    deadline_ = parent.deadline_;
+    data_ = parent.data_;
+  }
 
   if (set_current_) {
     previous_ = current_;
@@ -152,13 +155,11 @@ void context::reset_all() {
 }
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
+  std::scoped_lock lock(data_mu_);
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
   res.reserve(data_.size());
-  {
-    std::scoped_lock lock(data_mu_);
-    for (auto it : data_) {
-      res.push_back(it.second);
-    }
+  for (auto it : data_) {
+    res.push_back(it.second);
   }
   return res;
 }
@@ -168,6 +169,7 @@ void context::set_data(
   for (const auto& it : new_data) {
     if (!it) throw errors::data_mismatch("Empty object in the context data");
   }
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From ab9e4fdf7328af19122632f42e6ef33c9c50c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 39/63] fix: take items out of queues without constructing
 empty ones

---
 src/arpc/queue.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index b976658..6168a15 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -65,9 +65,8 @@ class queue {
   }
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
-    value_type result;
     if (data_.size() == 0) throw errors::try_again("Queue is empty");
-    result = std::move(data_.front());
+    value_type result(std::move(data_.front()));
     data_.pop();
     update_flags();
     return result;
-- 
2.43.0


From faebb2968c8455c3c8c3b08bcd237f622ff4e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 40/63] fix: repeat interrupted reads, writes and accepts;
 nothing asked for is no end of channel

---
 src/arpc/channel.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..47ccaaf 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/channel.h"
+#include <errno.h>
 #include <fcntl.h>
 #include <signal.h>
 #include <unistd.h>
@@ -43,6 +44,18 @@ struct ignore_sigpipe {
 }  // namespace
 #endif  // ESP_PLATFORM
 
+namespace {
+// Repeat a system call for as long as signals interrupt it.
+template <typename F>
+auto retry_interrupted(F&& call) {
+  decltype(call()) res;
+  do {
+    res = call();
+  } while (res < 0 && errno == EINTR);
+  return res;
+}
+}  // namespace
+
 channel::channel() noexcept : fd_(-1) {}
 
 channel::channel(int fd) noexcept : fd_(fd) {}
@@ -88,9 +101,9 @@ std::size_t channel::read(void* buf, std::size_t len) {
 }
 
 std::size_t channel::maybe_read(void* buf, std::size_t len) {
-  auto num = ::read(fd_, buf, len);
+  auto num = retry_interrupted([&]() { return ::read(fd_, buf, len); });
   if (num < 0) throw_io_error("Error reading");
-  if (num == 0) throw errors::eof("End of channel");
+  if (num == 0 && len > 0) throw errors::eof("End of channel");
   return static_cast<std::size_t>(num);
 }
 
@@ -104,7 +117,7 @@ std::size_t channel::write(const void* buf, std::size_t len) {
 }
 
 std::size_t channel::maybe_write(const void* buf, std::size_t len) {
-  auto num = ::write(fd_, buf, len);
+  auto num = retry_interrupted([&]() { return ::write(fd_, buf, len); });
   if (num < 0) throw_io_error("Error writing");
   return static_cast<std::size_t>(num);
 }
@@ -191,7 +204,8 @@ channel channel::accept() {
 }
 
 channel channel::maybe_accept() {
-  channel c(::accept(fd_, nullptr, nullptr));
+  channel c(
+      retry_interrupted([&]() { return ::accept(fd_, nullptr, nullptr); }));
   if (!c) throw_io_error("Accept error");
   return c;
 }
@@ -207,7 +221,9 @@ channel channel::accept(address& addr) {
 }
 
 channel channel::maybe_accept(address& addr) {
-  channel c(::accept(fd_, addr.address_data(), &addr.address_size()));
+  channel c(retry_interrupted([&]() {
+    return ::accept(fd_, addr.address_data(), &addr.address_size());
+  }));
   if (!c) throw_io_error("Accept error");
   return c;
 }
-- 
2.43.0


From 9a7af68ba35a7c666b83fec09939c3b045753c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 41/63] fix: report the outcome of interrupted and of
 unknowable connection attempts

---
 src/arpc/channel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 47ccaaf..346285b 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -161,12 +161,15 @@ channel& channel::shutdown(bool read, bool write) {
 }
 
 awaitable<void> channel::async_connect(const address& addr) {
-  if (::connect(fd_, addr.address_data(), addr.address_size()))
+  // An interrupted connection attempt goes on like a non-blocking one.
+  if (::connect(fd_, addr.address_data(), addr.address_size()) &&
+      errno != EINTR)
     throw_io_error("Error when connecting socket");
   return can_write().then(std::move([this]() {
     int err;
     socklen_t err_size = sizeof(err);
-    ::getsockopt(fd_, SOL_SOCKET, SO_ERROR, &err, &err_size);
+    if (::getsockopt(fd_, SOL_SOCKET, SO_ERROR, &err, &err_size))
+      throw_io_error("Can't get the outcome of the connection attempt");
     if (err) throw_io_error("Connection error", err);
   }));
 }
-- 
2.43.0


From 7ef6155f1781959b4fe6fca79c061ff1979fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 42/63] fix: stop dialing when the context is cancelled

---
 src/arpc/socket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/socket.cpp b/src/arpc/socket.cpp
index 47da107..155cdf4 100644
--- a/src/arpc/socket.cpp
+++ b/src/arpc/socket.cpp
@@ -59,6 +59,9 @@ channel dial(endpoint name, bool non_blocking) {
       s.make_non_blocking(non_blocking);
       s.connect(*it);
       return s;
+    } catch (const errors::cancelled&) {
+      // Nobody is interested in the other addresses any more.
+      throw;
     } catch (const errors::base_error&) {
       if (++it == addr_list.end()) throw;
     }
-- 
2.43.0


From d9f58f32076f3ea53a1afa76d5218211d3393468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 43/63] fix: keep the connections accepted next to a failing
 accept

---
 src/arpc/socket.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arpc/socket.cpp b/src/arpc/socket.cpp
index 155cdf4..2fca593 100644
--- a/src/arpc/socket.cpp
+++ b/src/arpc/socket.cpp
@@ -22,6 +22,7 @@
 #include "arpc/socket.h"
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <exception>
 #include <utility>
 #include "arpc/address_resolver.h"
 #include "arpc/context.h"
@@ -96,13 +97,20 @@ channel listener::accept() {
       return res;
     }
     auto [res] = select(acceptors_);
+    std::exception_ptr error;
     for (auto& r : res) {
       if (r) {
-        auto s = std::move(r).value();
-        s.make_non_blocking(non_blocking_);
-        pending_.push_back(std::move(s));
+        try {
+          auto s = std::move(r).value();
+          s.make_non_blocking(non_blocking_);
+          pending_.push_back(std::move(s));
+        } catch (const errors::base_error&) {
+          // Don't lose what the other sockets have accepted.
+          error = std::current_exception();
+        }
       }
     }
+    if (error) std::rethrow_exception(error);
   } while (true);
 }
 
-- 
2.43.0


From 42a9fc8d7493f3f01090ebff16a4077472aa7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 44/63] fix: create files with defined permissions

---
 src/arpc/file.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..3bc71d4 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -36,8 +36,10 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_TRUNC,     // WRITE_PLUS
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
-  channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+  // What the process' file mode creation mask leaves of this.
+  constexpr mode_t permissions = 0666;
+  channel res(::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)],
+                     permissions));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 9c0ba090d8ce0dea42747d1c945c0d51eaa6cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 45/63] fix: set the linger option, not reuse_port

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 346285b..da48762 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -271,7 +271,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From a02156e45848a29c222da1a359493a734d5596a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 46/63] fix: let flushing leave the no_delay setting alone

---
 src/arpc/channel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index da48762..d569739 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -254,6 +254,13 @@ channel& channel::reuse_port(bool reuse) {
 
 channel& channel::flush() {
   constexpr int on = 1, off = 0;
+  int no_delay = off;
+  socklen_t size = sizeof(no_delay);
+  if (!::getsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &no_delay, &size) &&
+      no_delay) {
+    // Nothing is ever held back.
+    return *this;
+  }
   if (!::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on))) {
     ::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &off, sizeof(off));
   }
-- 
2.43.0


From fda5bf243d4cd7fa343efaa1febadcf1e232336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 47/63] fix: let a connection that is down be connected again

---
 src/arpc/connection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..97b7454 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -80,6 +80,8 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
+      // Our own reference would keep the old connection in use.
+      ptr.reset();
       connection_.drop();
       connection_factory_();
       connection_.arm(&*connection_storage_);
-- 
2.43.0


From 13416a8fb242d196462b8f07bedc5402b232bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 48/63] fix: wake up the users of a connection that is
 disconnected

---
 src/arpc/connection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 97b7454..19f60e9 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -90,6 +90,8 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
+    // Wake up whoever is using it, or we could be waiting for them for ever.
+    if (auto ptr = connection_.get_or_null()) ptr->disconnect();
     connection_.drop();
     connection_storage_.reset();
   }
-- 
2.43.0


From a8c2b79733899954975881a9aac4b088b1c68488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 49/63] fix: keep the channel of a connection open for those
 who flush it or wait for its data

---
 src/arpc/connection.cpp | 20 +++++++++++++-------
 src/arpc/connection.h   |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..4abedf5 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -38,8 +38,9 @@ void packet_connection::connect() {
   throw errors::not_implemented("Constructor-only connection");
 }
 
-channel_connection::channel_connection(channel&& ch) : channel_(std::move(ch)) {
-  channel_.make_non_blocking();
+channel_connection::channel_connection(channel&& ch)
+    : channel_(std::make_shared<channel>(std::move(ch))) {
+  channel_->make_non_blocking();
   locked_.arm(this);
 }
 
@@ -53,7 +54,8 @@ void channel_connection::disconnect() {
   std::unique_lock lock(mu_);
   closing_.set();
   locked_.drop();
-  channel_.close();
+  // Those who wait for data may still need it.
+  channel_.reset();
 }
 
 void channel_connection::write(const char* data, std::size_t size) {
@@ -61,7 +63,7 @@ void channel_connection::write(const char* data, std::size_t size) {
 
   while (size > 0) {
     auto [written, closing] =
-        select(channel_.async_write(data, size), closing_.async_wait());
+        select(channel_->async_write(data, size), closing_.async_wait());
     if (written) {
       size -= *written;
       data += *written;
@@ -73,7 +75,9 @@ void channel_connection::write(const char* data, std::size_t size) {
 
 void channel_connection::putc(char c) { connection::putc(c); }
 
-void channel_connection::flush() { channel_.flush(); }
+void channel_connection::flush() {
+  if (auto lock = locked_.get_or_null()) channel_->flush();
+}
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
@@ -81,7 +85,7 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
   std::size_t total_read = 0;
   while (size > 0) {
     auto [read, closing] =
-        select(channel_.async_read(data, size), closing_.async_wait());
+        select(channel_->async_read(data, size), closing_.async_wait());
     if (read) {
       if (*read == 0) break;
       size -= *read;
@@ -97,7 +101,9 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
 char channel_connection::getc() { return connection::getc(); }
 
 awaitable<void> channel_connection::data_available() {
-  return channel_.can_read();
+  auto lock = locked_.get();
+  // Keep the channel open for as long as somebody may wait for it.
+  return channel_->can_read().then([ch(channel_)]() {});
 }
 
 char_dev_connection::char_dev_connection(const std::string& path)
diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 19f60e9..1b84439 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -194,7 +194,7 @@ class channel_connection : public connection {
   usage_lock<channel_connection, errors::io_error> locked_{
       "Connection is closed"};
   std::mutex mu_;
-  channel channel_;
+  std::shared_ptr<channel> channel_;
   flag closing_;
 };  // namespace arpc
 
-- 
2.43.0


From d3f8fc3322124189424237f5ef185f04538ecbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 50/63] fix: forget and cancel remote calls from contexts that
 are over

---
 src/arpc/client.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..fcea1d0 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -404,7 +405,10 @@ class client_connection {
     }
   }
 
-  mutex pending_mu_, sending_mu_;
+  // Not a context-aware one: the pending requests need to be tended to also from
+  // contexts that are over.
+  std::mutex pending_mu_;
+  mutex sending_mu_;
   rpc_defs::request_id_type sequence_;
   flag ready_;
   connection_type connection_;
-- 
2.43.0


From 2867eef141257be0c67ba34ce11f0b430f5590b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 51/63] fix: end remote calls at their deadline

---
 src/arpc/client.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index fcea1d0..55e508a 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -222,7 +222,7 @@ class client_connection {
     auto now = std::chrono::system_clock::now();
     auto it = pending_.begin();
     while (it != pending_.end()) {
-      if (it->second.deadline && *(it->second.deadline) < now) {
+      if (it->second.deadline && *(it->second.deadline) <= now) {
         it->second.result.set_exception(std::make_exception_ptr(
             errors::deadline_exceeded("Request timed out")));
         it = pending_.erase(it);
-- 
2.43.0


From 1f7c7acf5577a91d50f72ed290e1ea397bdce793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 52/63] fix: destroy clients that are dialing

---
 src/arpc/client.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 55e508a..1a2a177 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -187,11 +187,11 @@ class client_connection {
             &client_connection::handle_timeouts_and_cancellations, this) {}
 
   ~client_connection() {
+    // Either of the threads can be the one keeping the connection busy.
     receiver_.get_context().cancel();
+    timeout_and_cancellation_handler_.get_context().cancel();
     connection_.disconnect();
     receiver_.join();
-
-    timeout_and_cancellation_handler_.get_context().cancel();
     timeout_and_cancellation_handler_.join();
   }
 
-- 
2.43.0


From c57debb123c1f649f34d18bc2dd2e231c2afe715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 53/63] fix: keep ending remote calls at their deadline while a
 cancellation is stuck

---
 src/arpc/client.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 1a2a177..06ba6de 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -398,6 +398,11 @@ class client_connection {
         }
         // Send the cancellation request. Ignore errors.
         try {
+          // Other requests can't wait for us longer than this.
+          context ctx;
+          if (auto limit = get_earliest_deadline()) {
+            ctx.set_deadline(*limit);
+          }
           send(cancel_request);
         } catch (...) {
         }
-- 
2.43.0


From b8d9f717324e60246f0169468e8d5f74e9420bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 54/63] fix: end the pending remote calls of a connection whose
 peer does not read

---
 src/arpc/client.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 06ba6de..3f0e9d0 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -340,6 +340,11 @@ class client_connection {
             }
           }
         } catch (...) {
+          auto exc = std::current_exception();
+
+          // Don't wait for requests that are stuck being sent.
+          connection_.disconnect();
+
           // Prevent sending more requests while we disconnect.
           std::scoped_lock lock(sending_mu_);
 
@@ -348,7 +353,6 @@ class client_connection {
           connection_.disconnect();
 
           // Broadcast the exception to all the pending requests.
-          auto exc = std::current_exception();
           broadcast_exception(exc);
         }
       }
-- 
2.43.0


From d7d9778f0767602d80f3deacd30247c1d4a3b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 55/63] fix: end the pending remote calls when a sender finds
 the connection lost

---
 src/arpc/client.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 3f0e9d0..9e8fa6f 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -265,16 +265,22 @@ class client_connection {
     pending_.clear();
   }
 
-  void send(std::string data) {
+  template <typename F>
+  void send(std::string data, F&& connected) {
     std::scoped_lock lock(sending_mu_);
     try {
       connection_.connect();
+      connected();
       connection_.send(std::move(data));
       ready_.set();
     } catch (...) {
       // Disconnect the connection.
       ready_.reset();
       connection_.disconnect();
+
+      // The receiver may not notice before we connect again, and nothing sent over the
+      // old connection will be answered.
+      broadcast_exception(std::make_exception_ptr(errors::io_error("Connection lost")));
       throw;
     }
   }
@@ -283,7 +289,7 @@ class client_connection {
                                    std::string request) {
     future<std::string> result;
 
-    {
+    send(std::move(request), [this, req_id, &result]() {
       std::scoped_lock lock(pending_mu_);
       auto& pending = pending_[req_id];
       pending.deadline = context::current().deadline();
@@ -295,14 +301,7 @@ class client_connection {
         } catch (const errors::try_again&) {
         }
       }
-    }
-
-    try {
-      send(request);
-    } catch (...) {
-      abandon_request(req_id);
-      throw;
-    }
+    });
 
     return result;
   }
@@ -407,7 +406,7 @@ class client_connection {
           if (auto limit = get_earliest_deadline()) {
             ctx.set_deadline(*limit);
           }
-          send(cancel_request);
+          send(std::move(cancel_request), []() {});
         } catch (...) {
         }
       }
-- 
2.43.0


From 026d031669d2766c0f9d3ff388ec7f14df4d797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 56/63] fix: keep served connections for as long as somebody
 uses them

---
 src/arpc/server.h | 116 ++++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..86d7b14 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,9 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  // Wrappers are shared with the tasks working on their connection, which may outlive
+  // the server's own interest in it.
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -176,7 +178,7 @@ class server {
 
     awaitable<void> receive() {
       std::scoped_lock lock(mu_);
-      if (failed_receive_) {
+      if (failed_) {
         return never();
       }
 
@@ -184,12 +186,14 @@ class server {
         return can_receive_.async_wait();
       }
 
-      return connection_->data_available().then([this]() {
-        can_receive_.reset();
+      return connection_->data_available().then([self = this->shared_from_this()]() {
+        if (!self->begin(self->can_receive_)) {
+          return;
+        }
 
-        server_.pool_.run([this]() {
+        self->server_.pool_.run([self]() {
           try {
-            auto request = connection_->receive();
+            auto request = self->connection_->receive();
             string_input_stream request_is(request);
 
             // A decoder for the header.
@@ -202,28 +206,27 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                server_.queue_request(request_key{key_, req_id}, request);
+                self->server_.queue_request(request_key{self->key_, req_id}, request);
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
-                server_.cancel_request(request_key{key_, req_id});
+                self->server_.cancel_request(request_key{self->key_, req_id});
                 break;
               default:
                 // Unknown message received.
                 throw errors::data_mismatch("Received unknown message type");
                 break;
             }
-
-            receive_done();
           } catch (...) {
-            receive_done(true);
+            self->fail();
           }
+          self->end(self->can_receive_);
         });
       });
     }
 
     awaitable<void> send() {
       std::scoped_lock lock(mu_);
-      if (failed_send_) {
+      if (failed_) {
         return never();
       }
 
@@ -231,63 +234,69 @@ class server {
         return can_send_.async_wait();
       }
 
-      return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+      return responses_.async_get().then([self = this->shared_from_this()](std::string response) {
+        if (!self->begin(self->can_send_)) {
+          return;
+        }
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        self->server_.pool_.run([self, response(std::move(response))]() mutable {
           try {
-            connection_->send(std::move(response));
-
-            send_done();
+            self->connection_->send(std::move(response));
           } catch (...) {
-            send_done(true);
+            self->fail();
           }
+          self->end(self->can_send_);
         });
       });
     }
 
     awaitable<void> remove() {
-      return can_remove_.async_wait().then([this]() {
-        server_.acceptor_->return_connection(std::move(connection_));
-        server_.connections_.erase(key_);
+      return can_remove_.async_wait().then([self = this->shared_from_this()]() {
+        self->server_.acceptor_->return_connection(std::move(self->connection_));
+        self->server_.connections_.erase(self->key_);
       });
     }
 
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
-   private:
-    void receive_done(bool failed = false) {
-      bool removed = false;
+    // Give up on the connection.
+    void fail() {
       {
         std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_receive_ = true;
-        }
-        if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
-          removed = true;
+        if (failed_) {
+          return;
         }
-        can_receive_.set();
-      }
-      if (removed) {
-        can_remove_.set();
+        failed_ = true;
+        in_progress_++;
       }
+      // Wake up the task working in the other direction.
+      connection_->disconnect();
+
+      std::scoped_lock lock(mu_);
+      in_progress_--;
+      check_removable();
     }
 
-    void send_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_send_ = true;
-        }
-        if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
-          removed = true;
-        }
-        can_send_.set();
+   private:
+    bool begin(flag& can_do_it) {
+      std::scoped_lock lock(mu_);
+      if (failed_) {
+        return false;
       }
-      if (removed) {
+      can_do_it.reset();
+      in_progress_++;
+      return true;
+    }
+
+    void end(flag& can_do_it) {
+      std::scoped_lock lock(mu_);
+      in_progress_--;
+      can_do_it.set();
+      check_removable();
+    }
+
+    void check_removable() {
+      if (failed_ && in_progress_ == 0) {
         can_remove_.set();
       }
     }
@@ -297,11 +306,13 @@ class server {
     std::mutex mu_;
     std::unique_ptr<connection_type> connection_;
     queue<std::string> responses_;
-    bool failed_receive_ = false, failed_send_ = false;
+    bool failed_ = false;
+    // Users of the connection, which can only be removed once there are none.
+    unsigned int in_progress_ = 0;
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -522,7 +533,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -629,6 +640,9 @@ class server {
       reactor_.join();
     }
 
+    for (auto& cit : connections_) {
+      cit.second->fail();
+    }
     connections_.clear();
 
     acceptor_.reset();
-- 
2.43.0


From 06eeb7effaaa23a3020cf29ce01b30db229579ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 57/63] fix: execute requests in the worker that received them

---
 src/arpc/server.h | 85 ++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 86d7b14..d305214 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -192,8 +192,10 @@ class server {
         }
 
         self->server_.pool_.run([self]() {
+          std::shared_ptr<request_wrapper> to_execute;
+          std::string request;
           try {
-            auto request = self->connection_->receive();
+            request = self->connection_->receive();
             string_input_stream request_is(request);
 
             // A decoder for the header.
@@ -206,7 +208,7 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                self->server_.queue_request(request_key{self->key_, req_id}, request);
+                to_execute = self->server_.add_request(request_key{self->key_, req_id});
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 self->server_.cancel_request(request_key{self->key_, req_id});
@@ -220,6 +222,12 @@ class server {
             self->fail();
           }
           self->end(self->can_receive_);
+
+          if (to_execute) {
+            // We are already where requests are to be executed. Handing it over instead
+            // could have all workers wait for each other once the queue is full.
+            self->server_.execute_request(*self, *to_execute, std::move(request));
+          }
         });
       });
     }
@@ -257,7 +265,7 @@ class server {
       });
     }
 
-    void add_response(std::string response) { responses_.put(std::move(response)); }
+    void add_response(std::string response) { responses_.maybe_put(std::move(response)); }
 
     // Give up on the connection.
     void fail() {
@@ -315,32 +323,19 @@ class server {
   using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
-  using request_result = std::pair<request_key, std::string>;
   class request_wrapper {
    public:
-    explicit request_wrapper(server& server, future<request_result> result)
-        : server_(server), result_(std::move(result)), context_(context::top(), false) {}
-
-    context& get_context() { return context_; }
+    explicit request_wrapper(const request_key& key) : key_(key), context_(context::top(), false) {}
 
-    awaitable<void> finish() {
-      return result_.async_get().then([this](request_result result) {
-        auto& [request_key, data] = result;
-        auto cit = server_.connections_.find(request_key.first);
-        if (cit != server_.connections_.end()) {
-          cit->second->add_response(std::move(data));
-        }
+    const request_key& key() const { return key_; }
 
-        server_.remove_request(request_key);
-      });
-    }
+    context& get_context() { return context_; }
 
    private:
-    server& server_;
-    future<request_result> result_;
+    request_key key_;
     context context_;
   };
-  using request_map = flat_map<request_key, std::unique_ptr<request_wrapper>>;
+  using request_map = flat_map<request_key, std::shared_ptr<request_wrapper>>;
 
   void cancel_request(const request_key& key) {
     std::scoped_lock lock(requests_mu_);
@@ -357,29 +352,36 @@ class server {
     requests_.erase(key);
   }
 
-  void queue_request(const request_key& key, std::string request) {
+  std::shared_ptr<request_wrapper> add_request(const request_key& key) {
     std::scoped_lock lock(requests_mu_);
 
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
-      return;
+      return nullptr;
     }
 
-    promise<request_result> promise;
-    auto wrapper_ptr = std::make_unique<request_wrapper>(*this, promise.get_future());
+    auto wrapper_ptr = std::make_shared<request_wrapper>(key);
+    requests_.insert({key, wrapper_ptr});
+    return wrapper_ptr;
+  }
 
-    pool_.run([this, promise(std::move(promise)), key, request(std::move(request)),
-               &parent_context(wrapper_ptr->get_context())]() mutable {
-      try {
-        context ctx(parent_context);
-        promise.set_value(request_result{key, std::move(execute(key.second, std::move(request)))});
-      } catch (...) {
-        promise.set_exception(std::current_exception());
-      }
-    });
+  void execute_request(connection_wrapper& connection, request_wrapper& wrapper,
+                       std::string request) {
+    std::optional<std::string> response;
+    try {
+      response = execute(wrapper.key().second, std::move(request), wrapper.get_context());
+    } catch (...) {
+    }
+
+    remove_request(wrapper.key());
 
-    requests_.insert({key, std::move(wrapper_ptr)});
+    if (response) {
+      connection.add_response(std::move(*response));
+    } else {
+      // Don't let the client wait for a response that we couldn't produce.
+      connection.fail();
+    }
   }
 
   template <typename Interface>
@@ -449,7 +451,8 @@ class server {
     });
   }
 
-  std::string execute(rpc_defs::request_id_type req_id, std::string request) {
+  std::string execute(rpc_defs::request_id_type req_id, std::string request,
+                      context& parent_context) {
     try {
       string_input_stream request_is(request);
 
@@ -485,7 +488,7 @@ class server {
       }
 
       // Current context.
-      context ctx;
+      context ctx(parent_context);
       method_decoder(ctx);
 
       // Set any timeout.
@@ -551,14 +554,6 @@ class server {
         awaitables.push_back(wrapper->send());
         awaitables.push_back(wrapper->remove());
       }
-      {
-        std::scoped_lock lock(requests_mu_);
-
-        for (auto& rit : requests_) {
-          auto& wrapper = rit.second;
-          awaitables.push_back(wrapper->finish());
-        }
-      }
 
       auto [events] = select(awaitables);
 
-- 
2.43.0


From 26a47452e068a5b6fb12264d9a35f4b5c3911929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 58/63] fix: registering an object replaces all methods of the
 previous one

---
 src/arpc/server.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index d305214..66a45ca 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -583,6 +583,8 @@ class server {
 
     auto key = object_name<ObjectNameEncoder>(std::forward<Name>(name));
     auto& entry = objects_[key];
+    // No methods of the object that had the name before.
+    entry.methods.clear();
     entry.ref = object.get_ref();
 
     register_object_interface(entry, object.get_ref());
-- 
2.43.0


From db9c260aca44fd38bca778dbc82ebad8329087be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 59/63] fix: keep accepting connections after failing to accept
 one

---
 src/arpc/server.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 66a45ca..790a8df 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -101,14 +101,22 @@ class connection_producer {
 
   void return_connection(std::unique_ptr<connection_type> returned) {
     returned.reset();
-    connections_given_.get();
+    connections_given_.maybe_get();
   }
 
  private:
   void produce() {
     while (true) {
       connections_given_.put();
-      output_.put(factory_());
+      try {
+        output_.put(factory_());
+      } catch (...) {
+        connections_given_.maybe_get();
+        // Failing to make one connection is no reason to give up on the others, unless
+        // we are being stopped. Don't keep the processor busy with it, though.
+        auto [rested] = select(timeout(std::chrono::milliseconds(10)));
+        *rested;
+      }
     }
   }
 
-- 
2.43.0


From c62c54b06d0462892846db0f52ad5ed8ede04f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 60/63] fix: cancel the requests in progress when a server is
 stopped

---
 src/arpc/server.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 790a8df..416ac36 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -216,7 +216,7 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                to_execute = self->server_.add_request(request_key{self->key_, req_id});
+                to_execute = self->server_.add_request(*self, request_key{self->key_, req_id});
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 self->server_.cancel_request(request_key{self->key_, req_id});
@@ -275,6 +275,11 @@ class server {
 
     void add_response(std::string response) { responses_.maybe_put(std::move(response)); }
 
+    bool failed() {
+      std::scoped_lock lock(mu_);
+      return failed_;
+    }
+
     // Give up on the connection.
     void fail() {
       {
@@ -360,9 +365,15 @@ class server {
     requests_.erase(key);
   }
 
-  std::shared_ptr<request_wrapper> add_request(const request_key& key) {
+  std::shared_ptr<request_wrapper> add_request(connection_wrapper& connection,
+                                               const request_key& key) {
     std::scoped_lock lock(requests_mu_);
 
+    if (connection.failed()) {
+      // Possibly because we were stopped.
+      return nullptr;
+    }
+
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
@@ -650,6 +661,14 @@ class server {
     }
     connections_.clear();
 
+    {
+      // Nobody is going to get the results of the requests in progress.
+      std::scoped_lock requests_lock(requests_mu_);
+      for (auto& rit : requests_) {
+        rit.second->get_context().cancel();
+      }
+    }
+
     acceptor_.reset();
   }
 
-- 
2.43.0


From 9f08bc23c9c1657d9c59f718b04820866de41028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 61/63] fix: decode only valid values of enums based on bool

---
 src/arpc/binary_codecs.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index c595823..c9e210c 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -790,15 +790,25 @@ class binary_decoder {
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
     in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
-    if constexpr (std::is_same_v<T, bool>) {
+    if constexpr (is_boolean<T>()) {
       // Any byte can come in, but only two of them are booleans.
       const unsigned char* bytes = reinterpret_cast<unsigned char*>(p);
       for (std::size_t i = 0; i < l; i++) {
-        p[i] = bytes[i] != 0;
+        p[i] = static_cast<T>(bytes[i] != 0);
       }
     }
   }
 
+  // Whether values are represented as booleans, as those of some enums are.
+  template <typename T>
+  static constexpr bool is_boolean() {
+    if constexpr (std::is_enum_v<T>) {
+      return std::is_same_v<std::underlying_type_t<T>, bool>;
+    } else {
+      return std::is_same_v<T, bool>;
+    }
+  }
+
   std::vector<seen_class_info> class_info_vector_;
   std::vector<shared_object_info> shared_object_vector_ = {
       shared_object_info{nullptr, nullptr}};
-- 
2.43.0


From 7f81926bd2e8ca86696c5375f4a11e324eb6084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:19 +0000
Subject: [PATCH 62/63] fix: report output streams that cannot be flushed

Bytes a stream had buffered got lost without any of the operations reporting it.
---
 src/arpc/iostream_adapters.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..05495b1 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -43,7 +43,12 @@ char istream_input_stream::getc() {
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() {
+  try {
+    flush();
+  } catch (...) {
+  }
+}
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -53,6 +58,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From 19ee67ed9632ea3955a3b216d6bde7bb35953ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:10 +0000
Subject: [PATCH 63/63] fix: keep track of dynamic objects that do not start
 with their dynamic base

Pointers of different types to such an object have different values, so it
was encoded more than once, and references to it were decoded to pointers
to its middle.
---
 src/arpc/binary_codecs.h |  9 ++++++---
 src/arpc/registry.h      | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index c9e210c..c9f83a2 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -164,7 +164,8 @@ class binary_encoder {
     // Objects of different types may share an address (like a struct and its
     // first member).
     const shared_object_key key(
-        p.get(), registry::get_type_id<std::remove_cv_t<T>>());
+        registry::get_object_address(p.get()),
+        registry::get_type_id<std::remove_cv_t<T>>());
     auto it = shared_object_map_.find(key);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
@@ -374,7 +375,8 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      ptr_ = std::shared_ptr<void>(ptr,
+                                   registry::get_object_address(ptr.get()));
     }
 
    private:
@@ -583,7 +585,8 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      p = std::shared_ptr<T>(
+          object_info.ptr, registry::get_object_at<T>(object_info.ptr.get()));
     }
   }
 
diff --git a/src/arpc/registry.h b/src/arpc/registry.h
index b12ab4c..59e8dce 100644
--- a/src/arpc/registry.h
+++ b/src/arpc/registry.h
@@ -27,6 +27,7 @@
 #include <memory>
 #include <set>
 #include <string_view>
+#include <type_traits>
 #include <vector>
 #include "arpc/container/flat_map.h"
 #include "arpc/container/flat_set.h"
@@ -202,6 +203,31 @@ std::enable_if_t<is_dynamic_v<T>, type_id> get_type_id() {
   return nullptr;
 }
 
+// Pointers of different types to one dynamic object may differ, as its classes
+// may have other bases: go through the one they all have in common.
+template <typename T>
+auto get_object_address(T* obj) {
+  using void_type =
+      std::conditional_t<std::is_const_v<T>, const void, void>;
+  using base_type = std::conditional_t<std::is_const_v<T>,
+                                       const ::arpc::dynamic_base_class,
+                                       ::arpc::dynamic_base_class>;
+  if constexpr (is_dynamic_v<std::remove_cv_t<T>>) {
+    return static_cast<void_type*>(static_cast<base_type*>(obj));
+  } else {
+    return static_cast<void_type*>(obj);
+  }
+}
+
+template <typename T>
+T* get_object_at(void* obj) {
+  if constexpr (is_dynamic_v<T>) {
+    return static_cast<T*>(static_cast<::arpc::dynamic_base_class*>(obj));
+  } else {
+    return static_cast<T*>(obj);
+  }
+}
+
 template <typename T>
 std::enable_if_t<!is_dynamic_v<T>, bool> check_dynamic_compatibility(
     void* obj) {
-- 
2.43.0

