From ef6d3bba7a09dc8b848037f4896bbc5bdc326e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 001/102] fix: relocate overlapping ranges of
 non-trivially-relocatable values in shift order

---
 best/memory/ptr.h | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..752c8f0 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1031,22 +1031,15 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
   //        src            dst      src + count    dst + count
   //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
-  //
   // Overlapping backward shift. Happens when dst < src < dest + count, need to
   // destroy {.start = dst + count, .end = src + count }
   // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
   //        dst            src      dst + count    src + count
   //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
+  // In the overlapping cases, elements are relocated one at a time, starting
+  // from the end of the source that lies in the direction of the shift. This
+  // way, every slot we write to is either outside of the source range, or has
+  // already been vacated.
 
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
@@ -1064,27 +1057,13 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   }
 
   // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
+  if (src < dst) {
+    for (size_t i = count; i > 0; --i) { (dst + i - 1).relo(src + i - 1, 1); }
     return;
   }
 
   // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
-  }
+  for (size_t i = 0; i < count; ++i) { (dst + i).relo(src + i, 1); }
 }
 }  // namespace best
 
-- 
2.43.0


From b56724fd94dd742694bfc31e91e52b90c16900cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 002/102] fix: record the size when moving an inlined vec of
 non-trivially-relocatable values

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..1f73c4f 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -602,11 +602,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("updating size to that of the relocated range"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("updating size to that of the relocated range"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 35f3a90f0930fca733f66f7e98a7054b0535ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 003/102] fix: make vec::shrink_to_fit() release unused
 capacity

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 1f73c4f..a398d9d 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -315,7 +315,11 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      destroy();  // Return to inlined mode, rather than allocate nothing.
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 7a2a1a1b4d10f735303416b4beeb879277121a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 004/102] fix: make vec(box<T[]>) compile, and accept empty
 boxes

---
 best/container/vec.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index a398d9d..50e75e0 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,10 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    // An empty box may be dangling, in which case there is no allocation to
+    // take ownership of. It can be left alone, since it owns no values.
+    if (box->is_empty()) { return; }
+    raw_ = *BEST_MOVE(box).leak();
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From a9d35977a9dea1100084d98557926dce6d49523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 005/102] fix: do not read past the haystack when a byte search
 matches off-stride

---
 best/memory/internal/bytes.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..8a627ea 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -167,9 +167,8 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // not a striding search. Skip to the next few bytes so that we begin
     // searching at the next possible valid match, which is aligned with the
     // stride of T.
-    size_t misalign = sizeof(T) - offset % sizeof(T);
-    data += misalign;
-    size -= offset + misalign;
+    data += sizeof(T) - offset % sizeof(T);
+    size = haystack.size() * sizeof(T) - (data - start);
   }
 }
 
-- 
2.43.0


From 3e3f85fa23a7263ca58d2e600aeff8eaca655488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 006/102] fix: order spans of multi-byte and signed values by
 value, not by memory representation

---
 best/memory/internal/bytes.h | 13 +++++++++++++
 best/memory/span.h           |  5 +++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 8a627ea..7cb8eba 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -94,6 +94,19 @@ concept byte_comparable = requires {
                                    best::bytes_internal::tag<U>{});
 };
 
+/// # `best::byte_orderable`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`. This is only the
+/// case for types that are a single, unsigned byte; in particular, it is not
+/// the case for multi-byte integers on little-endian platforms.
+///
+/// `char` is treated as an unsigned byte regardless of its signedness.
+template <typename T, typename U = T>
+concept byte_orderable =
+  byte_comparable<T, U> && is_char<T> && is_char<U> &&
+  !best::same<best::as_auto<T>, signed char> &&
+  !best::same<best::as_auto<U>, signed char>;
+
 /// # `best::constexpr_byte_comparable`
 ///
 /// Whether a pair of types can be `memcmp`'d in constexpr.
diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..6b3edbf 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1417,11 +1417,12 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
   if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
+                  best::bytes_internal::byte_orderable<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::byte_orderable<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   }
-- 
2.43.0


From 0352da39720e51f0e49aa823c205cf1674bfa49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 007/102] fix: do not ask the allocator for zero bytes when
 boxing an empty array

---
 best/container/box.h | 18 ++++++++++--------
 best/memory/ptr.h    |  4 ++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..6d37f65 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -117,10 +117,7 @@ class BEST_RELOCATABLE box final {
     : alloc_(best::in_place, BEST_FWD(alloc)) {
     ptr null{nullptr, ptr::meta_for(BEST_FWD(args)...)};
 
-    ptr_ = {
-      allocator().alloc(null.layout()).cast(best::types<pointee>),
-      null.meta(),
-    };
+    ptr_ = {allocate(null.layout()), null.meta()};
     ptr_.construct(BEST_FWD(args)...);
   }
 
@@ -287,6 +284,14 @@ class BEST_RELOCATABLE box final {
   constexpr bool operator==(niche) const { return ptr_ == nullptr; }
 
  private:
+  // Allocates memory for a value with the given layout. Zero-sized layouts, such
+  // as that of an empty array, do not allocate, since allocators do not tolerate
+  // them; the destructor does nothing for the resulting dangling pointer.
+  constexpr best::ptr<pointee> allocate(best::layout layout) {
+    if (layout.size() == 0) { return best::ptr<T>::dangling().raw(); }
+    return allocator().alloc(layout).cast(best::types<pointee>);
+  }
+
   best::ptr<T> ptr_;
   [[no_unique_address]] best::object<alloc> alloc_;
 };
@@ -314,10 +319,7 @@ constexpr box<T, A>::box(const box& that) requires requires(ptr p) {
   p.copy(p);
 }
   : alloc_(best::in_place, that.allocator()) {
-  ptr_ = {
-    allocator().alloc(that.as_ptr().layout()).cast(best::types<pointee>),
-    that.as_ptr().meta(),
-  };
+  ptr_ = {allocate(that.layout()), that.meta()};
   ptr_.copy(that.as_ptr());
 }
 
diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 752c8f0..49d857e 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -740,6 +740,10 @@ class ptr final {
     if (*this == nullptr) {
       best::crash_internal::crash("dereferenced a null `best::ptr`");
     }
+    if constexpr (best::is_unsized_array<T>) {
+      // There is nothing to access through a pointer to an empty array.
+      if (meta() == 0) { return; }
+    }
     if (to_pointee() < best::ptr<void>::from_addr(0x1000)) {
       best::crash_internal::crash("dereferenced a dangling `best::ptr`");
     };
-- 
2.43.0


From c49ab777918a4ebd9e18908c8ab0a57d53d882a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 008/102] fix: refuse inclusive ranges that end at the largest
 index

---
 best/iter/bounds.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..7c9097c 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,12 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // An inclusive range ending at the very last integer may have a count that
+  // does not fit in a size_t; such a range never fits in a sized range.
+  if (max_size && !end && including_end && *including_end >= *max_size) {
+    return {};
+  }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 625d793934c92253b021b74fd425abe165c82e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 009/102] fix: report the actual bound when a range check fails

---
 best/iter/bounds.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/bounds.cc b/best/iter/bounds.cc
index eebbabb..cafdf61 100644
--- a/best/iter/bounds.cc
+++ b/best/iter/bounds.cc
@@ -47,15 +47,15 @@ namespace best::bounds_internal {
 
   if (end && *end > len) {
     crash_internal::crash({"bounds-check failed: %zu (end) > %zu (len)", loc},
-                          end, len);
+                          *end, len);
   }
 
   if (including_end && *including_end >= len) {
     crash_internal::crash({"bounds-check failed: %zu (end) >= %zu (len)", loc},
-                          end, len);
+                          *including_end, len);
   }
 
-  if (count && start + *count > len) {
+  if (count && *count > len - start) {
     crash_internal::crash(
       {"bounds-check failed: %zu + %zu (start + count) > %zu (len)", loc},
       start, *count, len);
-- 
2.43.0


From 3ded230416cb8e3daedc2324bab9703081056e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 010/102] fix: find the layout cookie of an allocation even
 when freed with another alignment

---
 best/memory/allocator.cc | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..1dbbbf0 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -53,11 +53,9 @@ best::layout embiggen(best::layout layout) {
 void check_layout(best::ptr<void>& p, best::layout& layout) {
   if (!UseCookies) { return; }
 
-  auto actual = embiggen(layout);
-  p = p.cast(best::types<char>) - (actual.size() - layout.size());
-
   best::layout cookie;
-  std::memcpy(&cookie, p.raw(), sizeof(cookie));
+  std::memcpy(&cookie, static_cast<char*>(p.raw()) - sizeof(cookie),
+              sizeof(cookie));
   if (cookie.size() != layout.size() || cookie.align() != layout.align()) {
     best::crash_internal::crash(
       "attempted to free allocation with layout %zu:%zu, but it was actually "
@@ -65,9 +63,24 @@ void check_layout(best::ptr<void>& p, best::layout& layout) {
       layout.size(), layout.align(), cookie.size(), cookie.align());
   }
 
+  auto actual = embiggen(layout);
+  p = p.cast(best::types<char>) - (actual.size() - layout.size());
   layout = actual;
 }
 
+// Given the start of an allocation for the embiggened version of `layout`,
+// stores its cookie and returns the pointer to hand out.
+//
+// The cookie goes immediately before that pointer, so that it can be found even
+// if the layout passed to free() has the wrong alignment.
+void* place_cookie(void* p, best::layout layout) {
+  if (!UseCookies) { return p; }
+
+  p = static_cast<char*>(p) + (embiggen(layout).size() - layout.size());
+  std::memcpy(static_cast<char*>(p) - sizeof(layout), &layout, sizeof(layout));
+  return p;
+}
+
 // Checks for illicit pointer values that should not be passed to the
 // allocator's functions.
 void check_addr(best::ptr<void> p) {
@@ -97,10 +110,7 @@ best::ptr<void> malloc::alloc(best::layout layout) {
       layout.align());
   }
 
-  if (UseCookies) {
-    std::memcpy(p, &layout, sizeof(layout));
-    p = static_cast<char*>(p) + (actual.size() - layout.size());
-  }
+  p = place_cookie(p, layout);
 
   if (best::is_debug()) { std::memset(p, 0xcd, layout.size()); }
   return p;
@@ -116,11 +126,7 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
         "calloc() returned a null pointer on layout %zu:%zu", layout.size(),
         layout.align());
     }
-    if (UseCookies) {
-      std::memcpy(p, &layout, sizeof(layout));
-      p = static_cast<char*>(p) + (actual.size() - layout.size());
-    }
-    return p;
+    return place_cookie(p, layout);
   }
 
   auto p = alloc(layout);
@@ -141,11 +147,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
         old.size(), old.align(), layout.size(), layout.align());
     }
-    if (UseCookies) {
-      std::memcpy(p, &layout, sizeof(layout));
-      p = static_cast<char*>(p) + (actual.size() - layout.size());
-    }
-    return p;
+    return place_cookie(p, layout);
   }
 
   auto p = alloc(layout);
-- 
2.43.0


From 126a5e613f3fb8bb09c908599a1dfe2d7ff3deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 011/102] fix: preserve contents when best::malloc resizes
 over-aligned allocations

---
 best/memory/allocator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index 1dbbbf0..f719e52 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -137,11 +137,15 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto actual_ptr = ptr;
+  auto actual_old = old;
+  check_layout(actual_ptr, actual_old);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  // NOTE: realloc() can't be used if the old alignment was larger than normal,
+  // since then the offset from the cookie to the data changes, too.
+  if (best::max(actual_old.align(), actual.align()) <= MaxAlign) {
+    void* p = ::realloc(actual_ptr.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -153,7 +157,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From 08dd8cd3dd97a9feb7b3a543dd93357a5ad9071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 012/102] fix: refuse allocations whose size does not fit with
 their cookie

---
 best/memory/allocator.cc | 5 +++++
 best/memory/layout.h     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index f719e52..c8adf83 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -41,6 +41,11 @@ best::layout embiggen(best::layout layout) {
   size_t new_align = best::max(layout.align(), best::align_of<best::layout>);
   size_t grow_by = best::size_of<best::layout>;
   if (grow_by < new_align) { grow_by = new_align; }
+  if (layout.size() > best::max_of<size_t> / 2 - grow_by) {
+    best::crash_internal::crash(
+      "attempted to allocate more than max_of<size_t>/2 bytes: %zu:%zu",
+      layout.size(), layout.align());
+  }
 
   return best::layout(
     unsafe("the alignment is a power of two, because it is either `layout`'s "
diff --git a/best/memory/layout.h b/best/memory/layout.h
index 7f21d2a..c15f1ce 100644
--- a/best/memory/layout.h
+++ b/best/memory/layout.h
@@ -90,7 +90,7 @@ class layout final {
   template <typename T>
   static constexpr layout array(size_t n) {
     auto [sz, of] = best::overflow(size_of<T>) * n;
-    if (of || sz > best::max_of<size_t>) {
+    if (of || sz > best::max_of<size_t> / 2) {
       best::crash_internal::crash(
         "attempted to allocate more than max_of<size_t>/2 bytes");
     }
-- 
2.43.0


From 1105be8d64f13aae0a73e67850cc1fe8347bf694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 013/102] fix: refuse vec::reserve() of a size that overflows

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 50e75e0..a67e446 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -311,7 +311,9 @@ class vec final {
   ///
   /// Ensures that pushing an additional `count` elements would not cause this
   /// vector to resize, by resizing the internal array eagerly.
-  void reserve(size_t count) { resize_uninit(size() + count); }
+  void reserve(size_t count) {
+    resize_uninit((best::overflow(size()) + count).strict());
+  }
 
   /// # `vec::shrink_to_fit()`
   ///
-- 
2.43.0


From cac6295f5c81a0083a8f7637ceac4d0ee371847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 014/102] fix: allow copy-assigning to a moved-from box

---
 best/container/box.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 6d37f65..6d68bf3 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -327,9 +327,9 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
-    this->~box();
-    return *new (this) box(that);
+  if (ptr_.raw() == best::ptr<T>::dangling().raw() ||
+      layout() != that.layout()) {
+    return *this = box(that);
   } else {
     as_ptr().copy_assign(that.as_ptr());
     return *this;
-- 
2.43.0


From f601ed1323505cb73dbe2ff55498429efe2ec545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 015/102] fix: allow move-assigning a box from one that its own
 value owns

---
 best/container/box.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 6d68bf3..940aab0 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -345,8 +345,11 @@ constexpr box<T, A>& box<T, A>::operator=(box&& that)
   requires best::moveable<alloc>
 {
   if (best::equal(this, &that)) { return *this; }
+  // NOTE: `that` may be owned by the current value of this box, so it must be
+  // moved out of before that value is destroyed.
+  box tmp(BEST_MOVE(that));
   this->~box();
-  return *new (this) box(BEST_MOVE(that));
+  return *new (this) box(BEST_MOVE(tmp));
 }
 
 template <typename T, typename A>
-- 
2.43.0


From d024cdc42833f21e3e56d91171dce2c817ceb80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 016/102] fix: allow assigning a vec from a part of itself

---
 best/container/vec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index a67e446..9c77e0e 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -693,6 +693,18 @@ void vec<T, max_inline, A>::assign(const contiguous auto& that) {
   if (best::equal(this, &that)) { return; }
 
   using Range = best::un_ref<decltype(that)>;
+  if constexpr (best::same<T, best::un_qual<best::data_type<Range>>>) {
+    if (best::size(that) > 0 && as_span().has_subarray(that)) {
+      // We are being assigned a part of ourselves, so there is nothing to copy:
+      // discard everything else instead.
+      size_t start = best::ptr(best::data(that)).raw() - data().raw();
+      size_t count = best::size(that);
+      erase({.start = start + count});
+      erase({.start = 0, .count = start});
+      return;
+    }
+  }
+
   if constexpr (best::is_vec<Range>) {
     if (!on_heap() && !that.on_heap() && best::copyable<T, trivially> &&
         best::same<T, typename Range::type> && MaxInline == Range::MaxInline) {
-- 
2.43.0


From 22828cd08c985a8dfafcef0f8221f49db664459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 017/102] fix: make box::try_copy() work with stateful
 allocators and empty arrays

---
 best/container/box.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 940aab0..58bec29 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -358,12 +358,10 @@ constexpr best::option<box<T, A>> box<T, A>::try_copy() const
 {
   if (!as_ptr().can_copy()) { return best::none; }
 
-  best::ptr<T> copy{
-    allocator().alloc(as_ptr().layout()).cast(best::types<pointee>),
-    {},
-  };
-  return box(best::unsafe("raw has been appropriately allocated"), allocator(),
-             copy.try_copy(as_ptr()));
+  box copy(best::unsafe("`copy` does not own anything yet"), allocator(),
+           best::ptr<T>::dangling());
+  copy.ptr_ = best::ptr<T>(copy.allocate(layout()), {}).try_copy(as_ptr());
+  return copy;
 }
 
 }  // namespace best
-- 
2.43.0


From e31727c7244c15ca2463650513e820dd5518dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 018/102] fix: do not move out of a named option in ok_or() and
 err_or()

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..fe4e4cb 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -562,12 +562,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -581,12 +581,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -624,13 +624,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -646,12 +646,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From d8ae6df6471a6a6e5b1305588f42d88697d9f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 019/102] fix: allow taking a pointer into a const choice or
 option

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From 407169a3945b33f51d0baacbd0261b285f32d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 020/102] fix: make self-assignment of a choice a no-op

---
 best/container/internal/choice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..8f6a6ce 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,8 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    // emplace() may destroy the current value before making the new one.
+    if (this == &that) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +202,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == &that) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From ef56d8cf86b1a57622c8254e89891f8bd95501ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 021/102] fix: do not destroy what a reference alternative of a
 choice refers to

---
 best/container/internal/choice.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 8f6a6ce..6e655e9 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -213,7 +213,12 @@ class impl : public storage<Ts...> {
   = default;
   constexpr ~impl() requires (!info.trivial_dtor())
   {
-    match([](auto&... value) { (std::destroy_at(best::addr(value)), ...); });
+    index_match([](auto tag, auto&... value) {
+      // Alternatives of reference type do not own what they refer to.
+      if constexpr (best::is_object<type<tag.value>>) {
+        (std::destroy_at(best::addr(value)), ...);
+      }
+    });
   }
 
   template <size_t which, typename... Args>
-- 
2.43.0


From 6db39fce16c0e737e350dcddb7d7d3ac44f3daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 022/102] fix: allow unwrapping a result whose error type is
 void

---
 best/text/format.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..05b3a35 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -592,9 +592,14 @@ struct fmt final {
   template <typename T, typename E>
   BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
     if (auto err = result->err()) {
-      auto message = best::format("unwrapped a best::err({:?})",
-                                  best::make_formattable(*err));
-      best::crash_internal::crash("%.*s", message.size(), message.data());
+      if constexpr (best::is_void<E>) {
+        best::crash_internal::crash("unwrapped a best::err()");
+      } else {
+        auto message = best::format("unwrapped a best::err({:?})",
+                                    best::make_formattable(*err));
+        best::crash_internal::crash("%.*s", int(message.size()),
+                                    message.data());
+      }
     }
   }
 };
-- 
2.43.0


From 16e0438abb8604ec18da65b6480cd0782d28d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 023/102] fix: keep the caller's location when a tracked
 argument is copied

---
 best/log/location.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/log/location.h b/best/log/location.h
index 4b2da81..5ab3267 100644
--- a/best/log/location.h
+++ b/best/log/location.h
@@ -54,7 +54,9 @@ class track_location {
   template <typename Arg = T>
   constexpr track_location(
     Arg&& arg, std::source_location loc = std::source_location::current())
-    requires std::convertible_to<Arg, T>
+    requires std::convertible_to<Arg, T> &&
+             // Copying a tracked argument must not track a new location.
+             (!std::same_as<std::remove_cvref_t<Arg>, track_location>)
     : value_(BEST_FWD(arg)), impl_(loc) {}
 
   /// Constructs a new location from the given location.
-- 
2.43.0


From 81cd0d7d3b99ea87f51abdb5aad6213612928143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 024/102] fix: write each crash message whole, however long,
 from any thread

---
 best/log/internal/crash.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/best/log/internal/crash.cc b/best/log/internal/crash.cc
index 80ff887..6361875 100644
--- a/best/log/internal/crash.cc
+++ b/best/log/internal/crash.cc
@@ -39,13 +39,17 @@ inline constexpr char Red[] = "\N{ESCAPE}[31m";
   best::location loc,
   best::fnref<void(char*, size_t, best::fnref<void(const char*, size_t)>)>
     write_message) {
-  // TODO: Make this function non-reentrant.
+  // Several threads may crash at once. Only the first gets to write a message
+  // and to end the process; this lock is deliberately never released. It is
+  // recursive, so crashing while crashing is fine.
+  ::flockfile(stderr);
 
-  static char buf[512];
+  char name[64] = "";
+  char buf[512];
   ::pthread_t self = ::pthread_self();
-  ::pthread_getname_np(self, buf, sizeof(buf));  // TODO: Handle this error.
+  ::pthread_getname_np(self, name, sizeof(name));  // TODO: Handle this error.
 
-  ::fprintf(stderr, "%slibbest: thread '%s' crashed at %s:%u\n%s", Red, buf,
+  ::fprintf(stderr, "%slibbest: thread '%s' crashed at %s:%u\n%s", Red, name,
             loc.impl().file_name(), unsigned(loc.line()), Reset);
   write_message(buf, sizeof(buf), [](const char* data, size_t len) {
     ::fprintf(stderr, "%slibbest: ", Red);
@@ -60,7 +64,22 @@ inline constexpr char Red[] = "\N{ESCAPE}[31m";
   va_list va;
   va_start(va, fmt);
   die(fmt.location(), [&](char* scratch, size_t scratch_len, auto write) {
-    size_t len = ::vsnprintf(scratch, scratch_len, *fmt, va);
+    va_list copy;
+    va_copy(copy, va);
+    int result = ::vsnprintf(scratch, scratch_len, *fmt, copy);
+    va_end(copy);
+
+    size_t len = result < 0 ? 0 : result;
+    if (len >= scratch_len) {
+      // Too long for the scratch buffer, which holds only the start of it.
+      if (char* big = static_cast<char*>(::malloc(len + 1))) {
+        ::vsnprintf(big, len + 1, *fmt, va);
+        write(big, len);
+        ::free(big);
+        return;
+      }
+      len = scratch_len - 1;
+    }
     write(scratch, len);
   });
   va_end(va);
-- 
2.43.0


From 27f76834af30cced782893f9cbcddea61a9b8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 025/102] fix: name every errno value by its own name

---
 best/io/errnos.inc | 171 ++++++++++++++++++++++-----------------------
 best/io/errnos.py  |  11 +--
 2 files changed, 87 insertions(+), 95 deletions(-)

diff --git a/best/io/errnos.inc b/best/io/errnos.inc
index 6dd8e52..a45edc9 100644
--- a/best/io/errnos.inc
+++ b/best/io/errnos.inc
@@ -10,53 +10,53 @@
 /*0009*/ e{"EBADF", "Bad file descriptor"},
 /*0010*/ e{"ECHILD", "No child processes"},
 /*0011*/ e{"EAGAIN", "Resource temporarily unavailable"},
-/*0012*/ e{"EWOULDBLOCK", "Resource temporarily unavailable"},
-/*0013*/ e{"ENOMEM", "Cannot allocate memory"},
-/*0014*/ e{"EACCES", "Permission denied"},
-/*0015*/ e{"EFAULT", "Bad address"},
-/*0016*/ e{"ENOTBLK", "Block device required"},
-/*0017*/ e{"EBUSY", "Device or resource busy"},
-/*0018*/ e{"EEXIST", "File exists"},
-/*0019*/ e{"EXDEV", "Invalid cross-device link"},
-/*0020*/ e{"ENODEV", "No such device"},
-/*0021*/ e{"ENOTDIR", "Not a directory"},
-/*0022*/ e{"EISDIR", "Is a directory"},
-/*0023*/ e{"EINVAL", "Invalid argument"},
-/*0024*/ e{"ENFILE", "Too many open files in system"},
-/*0025*/ e{"EMFILE", "Too many open files"},
-/*0026*/ e{"ENOTTY", "Inappropriate ioctl for device"},
-/*0027*/ e{"ETXTBSY", "Text file busy"},
-/*0028*/ e{"EFBIG", "File too large"},
-/*0029*/ e{"ENOSPC", "No space left on device"},
-/*0030*/ e{"ESPIPE", "Illegal seek"},
-/*0031*/ e{"EROFS", "Read-only file system"},
-/*0032*/ e{"EMLINK", "Too many links"},
-/*0033*/ e{"EPIPE", "Broken pipe"},
-/*0034*/ e{"EDOM", "Numerical argument out of domain"},
-/*0035*/ e{"ERANGE", "Numerical result out of range"},
-/*0036*/ e{"EDEADLK", "Resource deadlock avoided"},
-/*0037*/ e{"EDEADLOCK", "Resource deadlock avoided"},
-/*0038*/ e{"ENAMETOOLONG", "File name too long"},
-/*0039*/ e{"ENOLCK", "No locks available"},
-/*0040*/ e{"ENOSYS", "Function not implemented"},
-/*0041*/ e{"ENOTEMPTY", "Directory not empty"},
-/*0042*/ e{"ELOOP", "Too many levels of symbolic links"},
-/*0043*/ e{"ENOMSG", "No message of desired type"},
-/*0044*/ e{"EIDRM", "Identifier removed"},
-/*0045*/ e{"ECHRNG", "Channel number out of range"},
-/*0046*/ e{"EL2NSYNC", "Level 2 not synchronized"},
-/*0047*/ e{"EL3HLT", "Level 3 halted"},
-/*0048*/ e{"EL3RST", "Level 3 reset"},
-/*0049*/ e{"ELNRNG", "Link number out of range"},
-/*0050*/ e{"EUNATCH", "Protocol driver not attached"},
-/*0051*/ e{"ENOCSI", "No CSI structure available"},
-/*0052*/ e{"EL2HLT", "Level 2 halted"},
-/*0053*/ e{"EBADE", "Invalid exchange"},
-/*0054*/ e{"EBADR", "Invalid request descriptor"},
-/*0055*/ e{"EXFULL", "Exchange full"},
-/*0056*/ e{"ENOANO", "No anode"},
-/*0057*/ e{"EBADRQC", "Invalid request code"},
-/*0058*/ e{"EBADSLT", "Invalid slot"},
+/*0012*/ e{"ENOMEM", "Cannot allocate memory"},
+/*0013*/ e{"EACCES", "Permission denied"},
+/*0014*/ e{"EFAULT", "Bad address"},
+/*0015*/ e{"ENOTBLK", "Block device required"},
+/*0016*/ e{"EBUSY", "Device or resource busy"},
+/*0017*/ e{"EEXIST", "File exists"},
+/*0018*/ e{"EXDEV", "Invalid cross-device link"},
+/*0019*/ e{"ENODEV", "No such device"},
+/*0020*/ e{"ENOTDIR", "Not a directory"},
+/*0021*/ e{"EISDIR", "Is a directory"},
+/*0022*/ e{"EINVAL", "Invalid argument"},
+/*0023*/ e{"ENFILE", "Too many open files in system"},
+/*0024*/ e{"EMFILE", "Too many open files"},
+/*0025*/ e{"ENOTTY", "Inappropriate ioctl for device"},
+/*0026*/ e{"ETXTBSY", "Text file busy"},
+/*0027*/ e{"EFBIG", "File too large"},
+/*0028*/ e{"ENOSPC", "No space left on device"},
+/*0029*/ e{"ESPIPE", "Illegal seek"},
+/*0030*/ e{"EROFS", "Read-only file system"},
+/*0031*/ e{"EMLINK", "Too many links"},
+/*0032*/ e{"EPIPE", "Broken pipe"},
+/*0033*/ e{"EDOM", "Numerical argument out of domain"},
+/*0034*/ e{"ERANGE", "Numerical result out of range"},
+/*0035*/ e{"EDEADLK", "Resource deadlock avoided"},
+/*0036*/ e{"ENAMETOOLONG", "File name too long"},
+/*0037*/ e{"ENOLCK", "No locks available"},
+/*0038*/ e{"ENOSYS", "Function not implemented"},
+/*0039*/ e{"ENOTEMPTY", "Directory not empty"},
+/*0040*/ e{"ELOOP", "Too many levels of symbolic links"},
+/*0041*/ e{},
+/*0042*/ e{"ENOMSG", "No message of desired type"},
+/*0043*/ e{"EIDRM", "Identifier removed"},
+/*0044*/ e{"ECHRNG", "Channel number out of range"},
+/*0045*/ e{"EL2NSYNC", "Level 2 not synchronized"},
+/*0046*/ e{"EL3HLT", "Level 3 halted"},
+/*0047*/ e{"EL3RST", "Level 3 reset"},
+/*0048*/ e{"ELNRNG", "Link number out of range"},
+/*0049*/ e{"EUNATCH", "Protocol driver not attached"},
+/*0050*/ e{"ENOCSI", "No CSI structure available"},
+/*0051*/ e{"EL2HLT", "Level 2 halted"},
+/*0052*/ e{"EBADE", "Invalid exchange"},
+/*0053*/ e{"EBADR", "Invalid request descriptor"},
+/*0054*/ e{"EXFULL", "Exchange full"},
+/*0055*/ e{"ENOANO", "No anode"},
+/*0056*/ e{"EBADRQC", "Invalid request code"},
+/*0057*/ e{"EBADSLT", "Invalid slot"},
+/*0058*/ e{},
 /*0059*/ e{"EBFONT", "Bad font file format"},
 /*0060*/ e{"ENOSTR", "Device not a stream"},
 /*0061*/ e{"ENODATA", "No data available"},
@@ -94,42 +94,41 @@
 /*0093*/ e{"EPROTONOSUPPORT", "Protocol not supported"},
 /*0094*/ e{"ESOCKTNOSUPPORT", "Socket type not supported"},
 /*0095*/ e{"EOPNOTSUPP", "Operation not supported"},
-/*0096*/ e{"ENOTSUP", "Operation not supported"},
-/*0097*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
-/*0098*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
-/*0099*/ e{"EADDRINUSE", "Address already in use"},
-/*0100*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
-/*0101*/ e{"ENETDOWN", "Network is down"},
-/*0102*/ e{"ENETUNREACH", "Network is unreachable"},
-/*0103*/ e{"ENETRESET", "Network dropped connection on reset"},
-/*0104*/ e{"ECONNABORTED", "Software caused connection abort"},
-/*0105*/ e{"ECONNRESET", "Connection reset by peer"},
-/*0106*/ e{"ENOBUFS", "No buffer space available"},
-/*0107*/ e{"EISCONN", "Transport endpoint is already connected"},
-/*0108*/ e{"ENOTCONN", "Transport endpoint is not connected"},
-/*0109*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
-/*0110*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
-/*0111*/ e{"ETIMEDOUT", "Connection timed out"},
-/*0112*/ e{"ECONNREFUSED", "Connection refused"},
-/*0113*/ e{"EHOSTDOWN", "Host is down"},
-/*0114*/ e{"EHOSTUNREACH", "No route to host"},
-/*0115*/ e{"EALREADY", "Operation already in progress"},
-/*0116*/ e{"EINPROGRESS", "Operation now in progress"},
-/*0117*/ e{"ESTALE", "Stale file handle"},
-/*0118*/ e{"EUCLEAN", "Structure needs cleaning"},
-/*0119*/ e{"ENOTNAM", "Not a XENIX named type file"},
-/*0120*/ e{"ENAVAIL", "No XENIX semaphores available"},
-/*0121*/ e{"EISNAM", "Is a named type file"},
-/*0122*/ e{"EREMOTEIO", "Remote I/O error"},
-/*0123*/ e{"EDQUOT", "Disk quota exceeded"},
-/*0124*/ e{"ENOMEDIUM", "No medium found"},
-/*0125*/ e{"EMEDIUMTYPE", "Wrong medium type"},
-/*0126*/ e{"ECANCELED", "Operation canceled"},
-/*0127*/ e{"ENOKEY", "Required key not available"},
-/*0128*/ e{"EKEYEXPIRED", "Key has expired"},
-/*0129*/ e{"EKEYREVOKED", "Key has been revoked"},
-/*0130*/ e{"EKEYREJECTED", "Key was rejected by service"},
-/*0131*/ e{"EOWNERDEAD", "Owner died"},
-/*0132*/ e{"ENOTRECOVERABLE", "State not recoverable"},
-/*0133*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
-/*0134*/ e{"EHWPOISON", "Memory page has hardware error"},
+/*0096*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
+/*0097*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
+/*0098*/ e{"EADDRINUSE", "Address already in use"},
+/*0099*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
+/*0100*/ e{"ENETDOWN", "Network is down"},
+/*0101*/ e{"ENETUNREACH", "Network is unreachable"},
+/*0102*/ e{"ENETRESET", "Network dropped connection on reset"},
+/*0103*/ e{"ECONNABORTED", "Software caused connection abort"},
+/*0104*/ e{"ECONNRESET", "Connection reset by peer"},
+/*0105*/ e{"ENOBUFS", "No buffer space available"},
+/*0106*/ e{"EISCONN", "Transport endpoint is already connected"},
+/*0107*/ e{"ENOTCONN", "Transport endpoint is not connected"},
+/*0108*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
+/*0109*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
+/*0110*/ e{"ETIMEDOUT", "Connection timed out"},
+/*0111*/ e{"ECONNREFUSED", "Connection refused"},
+/*0112*/ e{"EHOSTDOWN", "Host is down"},
+/*0113*/ e{"EHOSTUNREACH", "No route to host"},
+/*0114*/ e{"EALREADY", "Operation already in progress"},
+/*0115*/ e{"EINPROGRESS", "Operation now in progress"},
+/*0116*/ e{"ESTALE", "Stale file handle"},
+/*0117*/ e{"EUCLEAN", "Structure needs cleaning"},
+/*0118*/ e{"ENOTNAM", "Not a XENIX named type file"},
+/*0119*/ e{"ENAVAIL", "No XENIX semaphores available"},
+/*0120*/ e{"EISNAM", "Is a named type file"},
+/*0121*/ e{"EREMOTEIO", "Remote I/O error"},
+/*0122*/ e{"EDQUOT", "Disk quota exceeded"},
+/*0123*/ e{"ENOMEDIUM", "No medium found"},
+/*0124*/ e{"EMEDIUMTYPE", "Wrong medium type"},
+/*0125*/ e{"ECANCELED", "Operation canceled"},
+/*0126*/ e{"ENOKEY", "Required key not available"},
+/*0127*/ e{"EKEYEXPIRED", "Key has expired"},
+/*0128*/ e{"EKEYREVOKED", "Key has been revoked"},
+/*0129*/ e{"EKEYREJECTED", "Key was rejected by service"},
+/*0130*/ e{"EOWNERDEAD", "Owner died"},
+/*0131*/ e{"ENOTRECOVERABLE", "State not recoverable"},
+/*0132*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
+/*0133*/ e{"EHWPOISON", "Memory page has hardware error"},
diff --git a/best/io/errnos.py b/best/io/errnos.py
index a5afdb4..bca1c12 100755
--- a/best/io/errnos.py
+++ b/best/io/errnos.py
@@ -33,15 +33,8 @@ def main():
 
   next = 0
   for n, name, message in errnos:
-    while next < n:
-      print(f"/*{next:04}*/ e{{}},")
-      next += 1
-    print(f'/*{next:04}*/ e{{"{name}", "{message}"}},')
-    next += 1
-
-
-  next = 0
-  for n, name, message in errnos:
+    if n < next:
+      continue  # Another name for the previous value, such as EWOULDBLOCK.
     while next < n:
       print(f"/*{next:04}*/ e{{}},")
       next += 1
-- 
2.43.0


From 631b524c4df980015285bfb82bfefed0204b149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 026/102] fix: let a best::ioerr be formatted

---
 best/io/ioerr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/io/ioerr.h b/best/io/ioerr.h
index 1fe66db..ae99a38 100644
--- a/best/io/ioerr.h
+++ b/best/io/ioerr.h
@@ -80,7 +80,7 @@ class ioerr final {
     }
     fmt.format("Error {}: ({}), {}", e.raw(), *e.name(), *e.message());
   }
-  friend void BestFmtQuery(auto& query, ioerr*) {
+  constexpr friend void BestFmtQuery(auto& query, ioerr*) {
     query.requires_debug = false;
   }
 
-- 
2.43.0


From 61d492abaeccb46c5331561fbedc36fd1b84a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 027/102] fix: do not look for short flags in arguments without
 a dash

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 257eb2a..3ed4f61 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -384,7 +384,7 @@ best::result<void, cli::error> cli::parse(
     ctx.cur = ctx.sub;
     if (!done_with_flags) {
       bool is_flag = next->starts_with("-");
-      bool is_letter = !next->starts_with("--");
+      bool is_letter = is_flag && !next->starts_with("--");
 
       if (next == "--") {
         done_with_flags = true;
-- 
2.43.0


From 2eb98c32d502252da2fc098889b4b2a9c2ea6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 028/102] fix: report what is wrong with a positional argument

---
 best/cli/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index e44e7a5..269135f 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -192,7 +192,7 @@ void cli::type_erase_field(auto f) {
         if (result) { return best::ok(); }
 
         return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, ctx.token, *result.err()),
+                                      ctx.exe, *result.err()),
                          /*is_fatal=*/true);
       });
   }
-- 
2.43.0


From 7edf71edefb2e520e6bafd87e3179350d17a0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 029/102] fix: report missing flags in the order they were
 declared

---
 best/cli/parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 3ed4f61..8a1b668 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -90,8 +90,8 @@ struct cli::impl {
   best::strbuf parent_sub_name;
   const group* parent_group;
 
-  /// Pointers to all required flags.
-  std::unordered_map<const flag*, best::strbuf> required;
+  /// Pointers to all required flags, in the order they were declared.
+  best::vec<best::row<const flag*, best::strbuf>> required;
 
   best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
     return sorted_flags.as_span()
@@ -309,7 +309,7 @@ void cli::init() {
     auto name = f.tag->letter != '\0' ? f.about.names[1].first()
                                       : f.about.names[0].first();
 
-    impl_->required.emplace(f.tag, name);
+    impl_->required.push(f.tag, name);
   }
 
   // Add magic flags.
-- 
2.43.0


From 28cce8200af09963deec7528ba4f078788295a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 030/102] fix: build command-line descriptions on first use, in
 any order

---
 best/cli/cli.h    | 9 +++++++--
 best/cli/parser.h | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/best/cli/cli.h b/best/cli/cli.h
index f87d7e9..870066f 100644
--- a/best/cli/cli.h
+++ b/best/cli/cli.h
@@ -350,8 +350,10 @@ class cli final {
   /// Constructs a cli for Flags.
   template <typename Flags, auto downcast>
   static cli build();
+  /// Returns the CLI for Flags, building it first if need be; it is needed
+  /// while building other ones, so it cannot be an ordinary global.
   template <typename Flags, auto downcast>
-  static cli global_for;
+  static cli& global_for();
 
   /// Executes a parse operation.
   best::result<void, error> parse(
@@ -370,7 +372,10 @@ class cli final {
   std::unique_ptr<impl> impl_;
 };
 template <typename Flags, auto downcast>
-cli cli::global_for = cli::build<Flags, downcast>();
+cli& cli::global_for() {
+  static cli global = cli::build<Flags, downcast>();
+  return global;
+}
 
 /// # `best::is_from_argv`.
 ///
diff --git a/best/cli/parser.h b/best/cli/parser.h
index 269135f..69085d5 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -41,7 +41,7 @@ namespace best {
 template <typename Flags>
 const cli& cli_for() {
   return cli::global_for<Flags,
-                         [](void* args) { return static_cast<Flags*>(args); }>;
+                         [](void* args) { return static_cast<Flags*>(args); }>();
 }
 
 /// # `best::parse_flags()`
@@ -174,10 +174,10 @@ void cli::type_erase_field(auto f) {
       });
   } else if constexpr (!subs.is_empty()) {
     constexpr const best::cli::subcommand& sub = subs.first();
-    add(std::move(about), sub, global_for<Arg, Downcast>);
+    add(std::move(about), sub, global_for<Arg, Downcast>());
   } else if constexpr (!groups.is_empty()) {
     constexpr const best::cli::group& group = groups.first();
-    add(std::move(about), group, global_for<Arg, Downcast>);
+    add(std::move(about), group, global_for<Arg, Downcast>());
   } else {
     static_assert(best::is_from_argv<Arg>,
                   "positional type must implement BestFromArgv()");
-- 
2.43.0


From 6dd3f038b6714f4c5d59d09e622ec14ec1eb1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 031/102] fix: make text::consume_suffix() compile

It called itself instead of strip_suffix().
---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..fbc2b3c 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From 37ea0a964050f95c563b6db437a8f3efbaa0b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 032/102] fix: make text::from_partial() compile

---
 best/text/str.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index fbc2b3c..f4137b3 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1230,10 +1230,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
-    if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+  auto runes = data.try_runes();
+  while (auto next = runes.next()) {
+    if (!next->ok()) { break; }
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From 91699a772a3a9d778059c2a9d1595c2c4f33de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 033/102] fix: make text::rune_indices() compile

Its iterator befriended pretext, so text could not construct it.
---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index f4137b3..b530f56 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -917,7 +917,7 @@ class text<E>::rune_index_iter_impl final {
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
-- 
2.43.0


From 59cb47a664c52da6a776f4415b471c3fd07247c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 034/102] fix: do not read past the end of truncated UTF-8

decode() trusted the length announced by the first byte of a rune, and read
that many bytes even where the input ends earlier.
---
 best/text/internal/utf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..65f9f11 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -85,6 +85,7 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
+  if (input.size() < ones) { return OutOfBounds; }
   return ones + (ones == 0);
 }
 
-- 
2.43.0


From 6a9a8a15efb04354e036de8482df2959d8be2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 035/102] fix: reject stray continuation bytes and over-long
 forms in UTF-8

validate_utf8_fast() accepted both, so text::from() could produce text whose
iterators then decode it without checking.
---
 best/text/internal/utf.h | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 65f9f11..36dbc8a 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,18 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune) {
+  if (rune < 0x80) {
+    return 1;
+  } else if (rune < 0x800) {
+    return 2;
+  } else if (rune < 0x10000) {
+    return 3;
+  } else {
+    return 4;
+  }
+}
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -52,8 +64,10 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     size_t bytes = best::leading_ones(uint8_t(value));
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
-    while (--bytes > 0) {
+    if (bytes == 1 || bytes > 4 || size_t(end - data) < bytes - 1) {
+      return false;
+    }
+    for (size_t i = 1; i < bytes; ++i) {
       char c = data[0];
       ++data;
       if (best::leading_ones(c) != 1) { return false; }
@@ -62,6 +76,9 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       value |= c & 0b00'111111;
     }
 
+    // Reject oversized encodings.
+    if (bytes != encode8_size(value)) { return false; }
+
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
@@ -69,18 +86,6 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
   return true;
 }
 
-constexpr int32_t encode8_size(uint32_t rune) {
-  if (rune < 0x80) {
-    return 1;
-  } else if (rune < 0x800) {
-    return 2;
-  } else if (rune < 0x10000) {
-    return 3;
-  } else {
-    return 4;
-  }
-}
-
 constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
-- 
2.43.0


From dc2d433dd4707099899f568336d733c85476b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 036/102] fix: reject malformed runes when decoding UTF-8
 backwards

undecode8() took a lone lead byte for a character of its own, and ignored
continuation bytes that do not belong to the rune they follow.
---
 best/text/internal/utf.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 36dbc8a..4655e8f 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -126,9 +126,14 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
+
+  // The byte we stopped at must announce exactly as many bytes as we skipped;
+  // otherwise, this is a cut-off rune or has stray continuations after it.
+  best::span<const char> last(input->data() + (input->size() - len), len);
+  if (decode8_size(last) != int32_t(len)) { return Invalid; }
   *input = {input->data(), input->size() - len};
 
-  return decode8(input->data().offset(input->size()).raw(), len);
+  return decode8(last.data().raw(), len);
 }
 
 // This function expects the caller to pre-compute encode8_size.
-- 
2.43.0


From 21fa589286f3eef93028a996b4c5bf33c20cf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 037/102] fix: do not read past the end of truncated UTF-16

decode16_size() returned its errors as huge sizes, and did not check that the
second half of a surrogate pair is there.
---
 best/text/internal/utf.h | 7 +++++--
 best/text/utf16.h        | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 4655e8f..5ef46e5 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -168,10 +168,13 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) {
+    if (input.size() < 2) { return OutOfBounds; }
+    return 2;
+  }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..aa9489b 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -71,7 +71,7 @@ struct utf16 final {
     auto code = best::utf_internal::decode16(input->data().raw(), words);
     if (code < 0) { return encoding_error(~code); }
 
-    *input = (*input)[{.start = words}];
+    *input = (*input)[{.start = size_t(words)}];
     if (auto r = rune::from_int(code)) { return *r; }
     return encoding_error::Invalid;
   }
-- 
2.43.0


From 9e8f8b12d25699085032d24d563ce5bed390a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 038/102] fix: decode Latin-1 code units above 0x7f

They were sign-extended, and so rejected.
---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4c5f994 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From 3ecfb1cef27395c5f429348c4c36a78488888dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 039/102] fix: find nothing at the ends of a text without
 losing the text

The empty string was said to span the whole haystack, so split_once("")
threw all of it away, and rfind("") was 0.
---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index b530f56..00d83d7 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1090,7 +1090,7 @@ namespace str_internal {
 template <typename N, typename H>
 constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                                        best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
@@ -1133,7 +1133,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 template <typename N, typename H>
 constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                                         best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {haystack.size(), haystack.size()}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-- 
2.43.0


From 1bfa5bcf726930b492fc34412108ff2f51d59725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 040/102] fix: let split() with an empty pattern end

It yielded an endless stream of empty strings. Now such a split yields the
whole text, once.
---
 best/text/str.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 00d83d7..dcf49fa 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1040,7 +1040,9 @@ class pretext<E>::split_impl final {
 
   constexpr best::option<pretext> next() {
     if (done_) { return best::none; }
-    if (auto found = text_.split_once(*pat_)) {
+    auto found = text_.split_once(*pat_);
+    // An empty match does not separate anything (and would match forever).
+    if (found && found->first().size() + found->second().size() < text_.size()) {
       text_ = found->second();
       return found->first();
     }
@@ -1052,7 +1054,8 @@ class pretext<E>::split_impl final {
 
   constexpr best::option<pretext> next_back() {
     if (done_) { return best::none; }
-    if (auto found = text_.rsplit_once(*pat_)) {
+    auto found = text_.rsplit_once(*pat_);
+    if (found && found->first().size() + found->second().size() < text_.size()) {
       text_ = found->first();
       return found->second();
     }
-- 
2.43.0


From 892cd0d146e6ddb48c1248458b2b35cf0782d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 041/102] fix: report the right position when searching across
 encodings

The position before the candidate was forgotten whenever a candidate turned
out not to match, and searches from the end started from the beginning.
---
 best/text/str.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index dcf49fa..1699bd7 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1108,18 +1108,20 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   auto needle_suf = needle.runes();
   auto first = *needle_suf.next();
 
+  // We need to know what index we were at before we find `first` in
+  // runes, since that's the end of the prefix half.
+  size_t after = 0;
   while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = after;
     bool found = false;
     while (auto next = runes.next()) {
       if (!next->ok()) { return {-1, -1}; }
+      after = haystack.size() - runes->rest().size();
       if (*next->ok() == first) {
         found = true;
         break;
       }
-      before = haystack.size() - runes->rest().size();
+      before = after;
     }
     if (!found) { break; }
 
@@ -1151,18 +1153,20 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   auto needle_pre = needle.runes();
   auto last = *needle_pre.next_back();
 
+  // We need to know what index we were at before we find `last` in
+  // runes, since that's the start of the suffix half.
+  size_t after = haystack.size();
   while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = after;
     bool found = false;
     while (auto next = runes.next_back()) {
       if (!next->ok()) { return {-1, -1}; }
+      after = runes->rest().size();
       if (*next->ok() == last) {
         found = true;
         break;
       }
-      before = runes->rest().size();
+      before = after;
     }
     if (!found) { break; }
 
@@ -1212,7 +1216,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-- 
2.43.0


From 7e5e6b4d7bafd185e66ce08e57c2f95826c7b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 042/102] fix: find no rune that the encoding cannot represent

Searching ASCII text for a non-ASCII rune crashed.
---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index 1699bd7..9790e09 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1185,6 +1185,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1194,6 +1195,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From d5b33dafa2b632403607dcdb6f4b6319c19078ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 043/102] fix: keep the predicate of split() for as long as the
 split

The iterator referred to the predicate it was given, even if that was a
temporary.
---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 9790e09..9b9e507 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1408,7 +1408,7 @@ constexpr auto text<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return text_.split(BEST_MOVE(pred)).map([](auto pre) {
+  return text_.split(BEST_FWD(pred)).map([](auto pre) {
     return text{unsafe("valid because text_ was already valid"), pre};
   });
 }
@@ -1747,8 +1747,8 @@ constexpr auto pretext<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto pretext<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using Pred = best::as_auto<decltype(pred)>;
+  return split_iter<Pred>(split_impl<Pred>(BEST_FWD(pred), *this));
 }
 
 template <typename E>
-- 
2.43.0


From 24674e58cbf9065d8af8147f3e75aedccfdd8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 044/102] fix: move forward when searching a span for a
 subsequence

find() applied an index into the rest of the haystack to the whole of it, and
so kept looking at the same place (and reported the wrong one).
---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 6b3edbf..48ef514 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1081,7 +1081,8 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack =
+        haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From 6166cb36a1aa15d603bc76b2a27143502bacf7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 045/102] fix: make span::split_once() compile with a predicate

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 48ef514..ec4124f 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1204,7 +1204,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1239,7 +1239,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From cc234c3a77215fdd711ee9a6d59fc1114b54ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 046/102] fix: do not encode unpaired surrogates as UTF-8,
 UTF-16 or UTF-32

Only WTF-8 says that it allows them; the others reject them when decoding, so
what was pushed to such a string could not be read back.
---
 best/text/utf16.h |  1 +
 best/text/utf32.h |  1 +
 best/text/utf8.h  | 11 ++++++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index aa9489b..8f17536 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..e8ac2cb 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -57,6 +57,14 @@ struct utf8 final {
   }
 
   static constexpr best::result<void, encoding_error> encode(
+    best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+    return encode_allow_surrogates(output, rune);
+  }
+
+ private:
+  friend struct wtf8;
+  static constexpr best::result<void, encoding_error> encode_allow_surrogates(
     best::span<char>* output, rune rune) {
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
@@ -66,6 +74,7 @@ struct utf8 final {
     return best::ok();
   }
 
+ public:
   static constexpr best::result<rune, encoding_error> decode(
     best::span<const char>* input) {
     auto bytes = best::utf_internal::decode8_size(*input);
@@ -115,7 +124,7 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    return utf8::encode_allow_surrogates(output, rune);
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 625d9276017c6a576b9735d8f3e72267cf170f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 047/102] fix: compare the code units of texts only within one
 encoding

UTF-8, Latin-1 and ASCII share a code unit type, but the same code units mean
different runes: U+00E2 in Latin-1 was found in the middle of UTF-8 text, and
equal texts compared as different.
---
 best/text/str.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 9b9e507..1744c51 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1097,8 +1097,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
+                best::same<N, H>) {
     auto found = haystack.as_codes().find(needle.as_codes());
     if (!found) { return {-1, -1}; }
     return {{*found, *found + needle.size()}};
@@ -1142,8 +1141,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
+                best::same<N, H>) {
     auto found = haystack.as_codes().rfind(needle.as_codes());
     if (!found) { return {-1, -1}; }
     return {{*found, *found + needle.size()}};
@@ -1563,7 +1561,7 @@ template <typename E>
 constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   const best::is_string auto& s) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
+    if constexpr (best::same<pretext, best::as_auto<decltype(s)>> &&
                   About.is_self_syncing) {
       auto rest = span_.strip_prefix(s.as_codes());
       BEST_GUARD(rest);
@@ -1588,7 +1586,7 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   const best::is_string auto& s) const requires (About.is_self_syncing)
 {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
+    if constexpr (best::same<pretext, best::as_auto<decltype(s)>> /*&&
                   About.is_self_syncing*/) {
       auto rest = span_.strip_suffix(s.as_codes());
       BEST_GUARD(rest);
@@ -1777,7 +1775,7 @@ constexpr best::ord pretext<E>::operator<=>(
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
                   About.is_self_syncing &&
-                  best::same_encoding_code<pretext, decltype(str)>()) {
+                  best::same<pretext, best::as_auto<decltype(str)>>) {
       return span_ <=> str.as_codes();
     }
 
-- 
2.43.0


From c3968ccf90fbaf9a2831ddd582e4af10076654b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 048/102] fix: allow pushing a text buffer to itself

It was taken for unchecked text and pushed rune by rune, reading from the old
storage after growing.
---
 best/text/strbuf.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..bdf3f0c 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -405,6 +405,10 @@ bool textbuf<E, A>::push(const best::is_string auto& that) {
       return false;
     }
     return true;
+  } else if constexpr (requires {
+                         { that.as_text() } -> best::is_text;
+                       }) {
+    return push(that.as_text());
   } else {
     return push(best::pretext(that));
   }
@@ -450,6 +454,10 @@ void textbuf<E, A>::push_lossy(const best::is_string auto& that) {
         buf_.set_size(u, size() + codes.ok()->size());
       }
     }
+  } else if constexpr (requires {
+                         { that.as_text() } -> best::is_text;
+                       }) {
+    push_lossy(that.as_text());
   } else {
     push_lossy(best::pretext(that));
   }
-- 
2.43.0


From d2db6a1b2ee669cf2cad7e433c8d53fd99a4745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 049/102] fix: make textbuf::allocator() compile

It called a vec accessor that does not exist.
---
 best/text/strbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index bdf3f0c..21f4d57 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -215,8 +215,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
-- 
2.43.0


From 835e90c5bd06006dbd14a7b2b9bfbfab8df61603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:03 +0000
Subject: [PATCH 050/102] fix: use the given allocator in textbuf::from()

The new string used a default-constructed one instead.
---
 best/text/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 21f4d57..0512fef 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -361,7 +361,7 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From aa1ae75bd7ab6f7280403adaed2432ef2a5bb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 051/102] fix: search spans of any byte-sized type

memchr() was only usable for char: searching, say, a span of unsigned chars
did not compile.
---
 best/memory/internal/bytes.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 7cb8eba..fca841f 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -144,11 +144,28 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
   return result <=> 0;
 }
 
+// Finds the first element equal to `needle`; returns null if there is none.
+template <typename T, typename U>
+constexpr T* find_byte(T* data, const U& needle, size_t size) {
+  if constexpr (best::same<best::as_auto<T>, char>) {
+    return (T*)BEST_memchr_(data, needle, size);
+  } else {
+    if (!std::is_constant_evaluated()) {
+      return (T*)bytes_internal::memchr(
+        data, reinterpret_cast<const unsigned char&>(needle), size);
+    }
+    for (; size > 0; ++data, --size) {
+      if (*data == needle) { return data; }
+    }
+    return nullptr;
+  }
+}
+
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
+  auto* found = bytes_internal::find_byte(haystack.data().raw(), *needle.data(),
+                                          haystack.size());
   if (!found) { return best::none; }
   return found - haystack.data().raw();
 }
@@ -208,7 +225,7 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
     if (len < nz) { return best::none; }
 
     // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
+    hp = bytes_internal::find_byte(hp, first, len);
     if (hp == nullptr) { return best::none; }
 
     // Check if we actually found the string.
-- 
2.43.0


From 818e69c530e4265cd21b6fea005ea1d385b0b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 052/102] fix: make splitting a span by a sequence compile

split_iter is an alias template and needs its argument. Like when splitting
text, keep a view of the sequence rather than a reference to the view or
container it was given as, which often is a temporary.
---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index ec4124f..8b725a8 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1260,7 +1260,8 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  auto pat = best::span(needle);
+  return split_iter<decltype(pat)>(split_impl<decltype(pat)>(pat, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
-- 
2.43.0


From fe2f64b0779271e47ec011e3adcccab6e56d94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 053/102] fix: do not split spans by empty sequences forever

The iterator yielded empty spans without end; now, as for text, it yields
the whole span.
---
 best/memory/span.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 8b725a8..ac1779f 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -778,7 +778,9 @@ class span<T, n>::split_impl final {
 
   constexpr best::option<best::span<T>> next() {
     if (done_) { return best::none; }
-    if (auto found = span_.split_once(*pat_)) {
+    auto found = span_.split_once(*pat_);
+    // An empty match does not separate anything (and would match forever).
+    if (found && found->first().size() + found->second().size() < span_.size()) {
       span_ = found->second();
       return found->first();
     }
@@ -790,7 +792,8 @@ class span<T, n>::split_impl final {
 
   constexpr best::option<best::span<T>> next_back() {
     if (done_) { return best::none; }
-    if (auto found = span_.rsplit_once(*pat_)) {
+    auto found = span_.rsplit_once(*pat_);
+    if (found && found->first().size() + found->second().size() < span_.size()) {
       span_ = found->first();
       return found->second();
     }
-- 
2.43.0


From 8c2766f3de073d02a5f0236f544c5b36ca9c42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 054/102] fix: keep the predicate given to span::split()

The iterator kept a reference to it, although it usually outlives the
expression the predicate appears in.
---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index ac1779f..cf51713 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1269,8 +1269,8 @@ constexpr auto span<T, n>::split(const R& needle) const
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
   best::callable<void(const T&)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using Pred = best::as_auto<decltype(pred)>;
+  return split_iter<Pred>(split_impl<Pred>(BEST_FWD(pred), *this));
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
-- 
2.43.0


From 5bd552ba8d55b53801b966467d6f67174620ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 055/102] fix: yield items by value from iter::inspect()

With a callback that takes no arguments, it yielded references to items that
no longer existed.
---
 best/iter/iter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..b2a8c41 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -389,7 +389,7 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb);
       return BEST_FWD(value);
     },
@@ -400,9 +400,9 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb, value);
-      return item(value);
+      return BEST_FWD(value);
     },
   });
 }
-- 
2.43.0


From f4ea58aa3ebf40269a94807f56737ed84b8f1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 056/102] fix: clamp the size hint of iter::take()

The first n items of a long sequence are not more than n. Collecting them
reserved space for the whole sequence.
---
 best/iter/iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index b2a8c41..fadf013 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,7 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    return {min < count_ ? min : count_, max && *max < count_ ? *max : count_};
   }
 
  private:
-- 
2.43.0


From 9e53a31a003e433f977328815022d229b4484ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 057/102] fix: let the end of an int_range win over its other
 fields when iterating

As documented, and as everywhere else.
---
 best/iter/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 7c9097c..653f231 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -291,8 +291,8 @@ constexpr auto int_range<Int>::iter() const {
   // Deal with a funny special case: we need to yield every integer. This
   // happens when start == min and end/count is not set or including_end is
   // Max.
-  if (start == Min && ((including_end && *including_end == Max) ||
-                       (!including_end && !end && !count))) {
+  if (start == Min && !end &&
+      (including_end ? *including_end == Max : !count)) {
     return best::iter(
       iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
   }
-- 
2.43.0


From 91523c03b4e4682ce0a6cb739eea410566511256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 058/102] fix: count every item in the size hint of an
 int_range

A range of every integer of its type has one item more than its size hint
said there were at most.
---
 best/iter/bounds.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 653f231..a4c1a42 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -252,10 +252,17 @@ struct int_range final {
       return ret;
     }
 
-    constexpr std::array<size_t, 2> size_hint() const {
-      // TODO(mcyoung): This will overflow for uint64 ranges, need to return
-      // something else.
-      return {count_, count_};
+    struct hint final {
+      size_t lower;
+      container_internal::option<size_t> upper;
+    };
+
+    constexpr hint size_hint() const {
+      size_t count = static_cast<size_t>(count_);
+      if (!plus_one_) { return {count, count}; }
+      // This may be one more than fits in a size_t.
+      if (count == static_cast<size_t>(-1)) { return {count, {}}; }
+      return {count + 1, count + 1};
     }
 
     constexpr size_t count() && {
-- 
2.43.0


From 0184cf633c2473d677db7bd96548ff2db70322c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 059/102] fix: make int_range::iter().last() of an empty range
 empty

It was the integer before the start of the range.
---
 best/iter/bounds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index a4c1a42..29ef197 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -271,6 +271,7 @@ struct int_range final {
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From 4ce91b63712a59956a08d23a32870b4e96c9c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 060/102] fix: count the integers of a signed int_range in an
 unsigned integer

A range such as -128..127 has more integers than its type can count: count()
and size_hint() were enormous, and next_back() overflowed.
---
 best/iter/bounds.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 29ef197..f5d5bf9 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -213,7 +213,11 @@ struct int_range final {
 
  private:
   struct iter_impl {
-    Int start_, count_;
+    // There may be more integers in the range than `Int` itself can count.
+    using count_t = std::make_unsigned_t<Int>;
+
+    Int start_;
+    count_t count_;
     bool plus_one_ = false;
 
    private:
@@ -247,7 +251,8 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret = static_cast<Int>(
+        static_cast<count_t>(count_t(start_) + count_ - !plus_one_));
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
@@ -272,7 +277,8 @@ struct int_range final {
 
     constexpr best::option<Int> last() && {
       if (count_ == 0 && !plus_one_) { return {}; }
-      return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
+      return static_cast<Int>(
+        static_cast<count_t>(count_t(start_) + count_ + plus_one_ - 1));
     }
   };
 
@@ -302,11 +308,15 @@ constexpr auto int_range<Int>::iter() const {
   if (start == Min && !end &&
       (including_end ? *including_end == Max : !count)) {
     return best::iter(
-      iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
+      iter_impl{.start_ = Min,
+                .count_ = static_cast<typename iter_impl::count_t>(-1),
+                .plus_one_ = true});
   }
 
-  return best::iter(
-    iter_impl{.start_ = start, .count_ = *normalize(Max).count});
+  return best::iter(iter_impl{
+    .start_ = start,
+    .count_ = static_cast<typename iter_impl::count_t>(
+      *normalize(Max).count)});
 }
 
 template <typename Int>
-- 
2.43.0


From 479c11550b7fb2a4b0ed3b67414096a11c91ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 061/102] fix: let the count of an int_range reach the largest
 integer

E.g. the range of six uint8_ts starting at 250 was empty, although the one
that starts at 250 and includes 255 is not.
---
 best/iter/bounds.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index f5d5bf9..521f69e 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -356,9 +356,10 @@ constexpr int_range<Int> int_range<Int>::normalize(opt_t max_size) const {
   }
 
   if (count) {
-    if ((best::overflow(start) + *count).overflowed) {
-      return {.start = start};
-    }
+    // NOTE: if the range includes `Max`, its end is `Max + 1`, which wraps
+    // around to `Min`.
+    auto [end, of] = best::overflow(start) + *count;
+    if (of && end != Min) { return {.start = start}; }
     return {.start = start, .count = count};
   }
 
-- 
2.43.0


From 06a4d2fba99c815421befccb0708826889836b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:51 +0000
Subject: [PATCH 062/102] fix: make reversing a reversed iterator compile

The two returns of iter::rev() had different types.
---
 best/iter/iter.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index fadf013..97c7e9f 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -483,7 +483,7 @@ class rev_ final {
 
   constexpr best::size_hint size_hint() const { return iter_.size_hint(); }
 
-  constexpr auto rev() const { return iter_; }
+  constexpr auto rev() && { return BEST_MOVE(iter_); }
 
  private:
   constexpr explicit rev_(best::iter<Impl> iter) : iter_(BEST_MOVE(iter)) {}
@@ -496,8 +496,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From 867fac035eaf455c3db5afd8b85432592a327389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:17 +0000
Subject: [PATCH 063/102] fix: run a deferred action once even if it runs its
 own best::defer

Further calls to run() have no effect, but one made by the action itself ran
the action again, without end.
---
 best/func/defer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..76fc2f7 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,9 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
+      // Do this first, in case `cb_` calls `run()` again.
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From cd9b51b8659bea8de3152932440fb97130495012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:17 +0000
Subject: [PATCH 064/102] fix: do not allow copying a best::defer

Each of the copies ran the action, and so did an object that was moved from.
---
 best/func/defer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 76fc2f7..23f2772 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -49,7 +49,10 @@ class [[nodiscard(
   constexpr defer(Cb&& cb) : cb_(BEST_FWD(cb)) {}
   constexpr defer(best::bind_t, Cb&& cb) : cb_(BEST_FWD(cb)) {}
 
-  /// # `defer::defer()`
+  defer(const defer&) = delete;
+  defer& operator=(const defer&) = delete;
+
+  /// # `defer::~defer()`
   ///
   /// Runs the defer at scope exit.
   constexpr ~defer() { run(); }
-- 
2.43.0


From ad279da4f750279dfc576dbaf7ccf776ece0a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:17 +0000
Subject: [PATCH 065/102] fix: return the argument from best::inspect()

As documented. It returned nothing, and let the callback move the argument
away.
---
 best/func/tap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..a332b7d 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -201,14 +201,14 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From 01b625892fa50754e5526524611ffca6b29f9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:17 +0000
Subject: [PATCH 066/102] fix: index with the given index in tap::operator[]

The tapped value shadowed it.
---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index a332b7d..38853d6 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
-- 
2.43.0


From 5d248a40118582427e64f2b2d728f0f40a82114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:46 +0000
Subject: [PATCH 067/102] fix: check callables against the arguments they are
 called with

best::lie<Args> is always an lvalue, so callables that take rvalues did not
compile, and ones overloaded for both gave the wrong result type.
---
 best/func/internal/call.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index b9ba755..97b9b84 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -112,7 +112,8 @@ constexpr bool can_call(tag<R(Args...), TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<F>, best::lie<Args>...))>;
+                                best::lie<F>,
+                                static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... TParams, typename R, typename... Args>
@@ -123,12 +124,14 @@ constexpr bool can_call(tag<R(Args...) const, TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<const F>, best::lie<Args>...))>;
+                                best::lie<const F>,
+                                static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... Args>
 auto call_result(tag<Args...>)
-  -> decltype(call_internal::call(best::lie<F>, best::lie<Args>...));
+  -> decltype(call_internal::call(best::lie<F>,
+                                  static_cast<Args&&>(best::lie<Args>)...));
 template <typename F, best::is_void V>
 auto call_result(tag<V>) -> decltype(call_internal::call(best::lie<F>));
 }  // namespace best::call_internal
-- 
2.43.0


From 33135a0b0b77405053e294dcdd1d162b6beb0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 068/102] fix: make best::fnrefs that return references compile

The deduced return type was that of the referenced object.
---
 best/func/internal/fnref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..1f31990 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,7 +65,7 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
           return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
         }) {}
-- 
2.43.0


From a99dc4815c0934f3ba3e504c2f93805b6eb60507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 069/102] fix: make mutable best::fnrefs to const callables
 compile

---
 best/func/internal/fnref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 1f31990..934a566 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -93,7 +93,8 @@ class impl {
   constexpr impl(const auto& fn)
     requires best::callable<decltype(fn), R(Args...)> &&
                (!no_captures<decltype(fn)>)
-    : ptr_(best::addr(fn)),
+    // The closure below adds the const back.
+    : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
           best::call(f, BEST_FWD(args)...);
-- 
2.43.0


From dbc47cbae937c7c11a2682f25fceb338eecf50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:37 +0000
Subject: [PATCH 070/102] fix: make temporary bound taps compile

A tap of best::bind holds a reference, which must not become an rvalue.
---
 best/func/tap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 38853d6..306450b 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -93,8 +93,10 @@ class [[nodiscard(
   /// Gets a reference to the wrapped callback.
   constexpr const Cb& callback() const& { return cb_; }
   constexpr Cb& callback() & { return cb_; }
-  constexpr const Cb&& callback() const&& { return BEST_MOVE(cb_); }
-  constexpr Cb&& callback() && { return BEST_MOVE(cb_); }
+  constexpr const Cb&& callback() const&& {
+    return static_cast<const Cb&&>(cb_);
+  }
+  constexpr Cb&& callback() && { return static_cast<Cb&&>(cb_); }
 
   /// # `tap()`, `tap[]`
   ///
-- 
2.43.0


From ccfc87889681ee4a50be41b1e88ced4c1c7bcc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 071/102] fix: write all of the text in an indented block

Text written inside of a pretty-printed block lost the character before each
newline, and got indentation in front of the newline instead of after it.
---
 best/text/format.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 05b3a35..b9ccee3 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -432,15 +432,19 @@ void formatter::write(const best::is_string auto& string) {
       return;
     }
 
+    // The index of a rune is where it starts, so each newline, and whatever
+    // precedes it on its line, needs to be taken from either side of it.
     size_t watermark = 0;
-    for (auto [idx, r] : string.rune_indices()) {
+    auto runes = string.rune_indices();
+    while (auto next = runes.next()) {
+      auto [idx, r] = *next;
       if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
+      if (idx > watermark) {
         update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
+        out_->push_lossy(string[{.start = watermark, .end = idx}]);
       }
 
-      watermark = idx;
+      watermark = string.size() - runes->rest().size();
       out_->push_lossy("\n");
       at_new_line_ = true;
     }
-- 
2.43.0


From 826c119b93038f75ae41f632d1da84d324bda1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 072/102] fix: make finishing a formatter block early final

The destructor finished the block for a second time, which closed it twice and
made the indentation wrap around.
---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From 8476fe5d3841d8efb2a21b914145a62bf61e443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 073/102] fix: restore the options of a formatter if formatting
 an argument throws

Otherwise they stay a reference to those of the argument, which are gone.
---
 best/text/BUILD    | 1 +
 best/text/format.h | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/text/BUILD b/best/text/BUILD
index 01a4911..5299aba 100644
--- a/best/text/BUILD
+++ b/best/text/BUILD
@@ -79,6 +79,7 @@ cc_library(
     ":strbuf",
     "//best/base:guard",
     "//best/container:option",
+    "//best/func:defer",
     "//best/math:conv",
     "//best/memory:span",
     "//best/meta:reflect",
diff --git a/best/text/format.h b/best/text/format.h
index b9ccee3..f98b6ef 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -24,6 +24,7 @@
 #include <cstdio>
 
 #include "best/container/option.h"
+#include "best/func/defer.h"
 #include "best/text/internal/format_parser.h"
 #include "best/text/rune.h"
 #include "best/text/str.h"
@@ -421,8 +422,8 @@ void formatter::format(const best::format_spec& spec,
     return;
   }
   auto old = std::exchange(cur_spec_, spec);
+  best::defer restore = [&] { cur_spec_ = old; };
   format(arg);
-  cur_spec_ = old;
 }
 
 void formatter::write(const best::is_string auto& string) {
-- 
2.43.0


From f4463223a002a963007ce2ad9b94273bcad1b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 074/102] fix: keep track of new lines outside of blocks when
 formatting

Text written without indentation left the formatter believing that it was still
at the start of a line.
---
 best/text/format.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.h b/best/text/format.h
index f98b6ef..f771dd8 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -430,6 +430,7 @@ void formatter::write(const best::is_string auto& string) {
   if constexpr (best::is_pretext<decltype(string)>) {
     if (indent_ == 0) {
       out_->push_lossy(string);
+      if (!string.is_empty()) { at_new_line_ = out_->as_text().ends_with('\n'); }
       return;
     }
 
-- 
2.43.0


From 768badef96cd8e9174d3268cc46498a0fff201e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:29 +0000
Subject: [PATCH 075/102] fix: accept {n:!} in format templates

The parser took the next value instead of the one asked for and then refused the
closing brace.
---
 best/text/internal/format_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..aaa858b 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -177,7 +177,8 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
+      if (!consume_prefix(data, len, '}')) { return false; }
+      if (!best::call(interpolate, cur_idx, args)) { return false; }
       continue;
     }
 
-- 
2.43.0


From f2bfce66493d1eb4a38a1c682155f94b960479f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:05 +0000
Subject: [PATCH 076/102] fix: exit with the given status from
 cli::error::print_and_exit()

The argument was ignored.
---
 best/cli/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/cli.cc b/best/cli/cli.cc
index dbbd9ea..02882f3 100644
--- a/best/cli/cli.cc
+++ b/best/cli/cli.cc
@@ -31,7 +31,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 void cli::error::print_and_exit(int bad_exit) const {
   if (is_fatal()) {
     best::eprintln("{}{}{}", Red, message(), Reset);
-    std::exit(128);
+    std::exit(bad_exit);
   } else {
     best::println("{}", message());
     std::exit(0);
-- 
2.43.0


From de6e82110ab609c89d9a239337b14eb17d6a4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:05 +0000
Subject: [PATCH 077/102] fix: keep the arguments of the program while it exits

The destructor of the vector of arguments ran when any thread ended the process,
for example by calling best::app::start() a second time, while another thread
was still filling or reading it.
---
 best/cli/app.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/best/cli/app.cc b/best/cli/app.cc
index 8fbafd6..ce5cb82 100644
--- a/best/cli/app.cc
+++ b/best/cli/app.cc
@@ -23,7 +23,13 @@
 
 namespace best {
 static std::atomic<app*> global_main = nullptr;
-static best::vec<best::pretext<wtf8>> real_argv;
+
+// The arguments are never destroyed: other threads may go on using them while
+// the process exits.
+static best::vec<best::pretext<wtf8>>& real_argv() {
+  static auto& argv = *new best::vec<best::pretext<wtf8>>;
+  return argv;
+}
 
 void app::install() {
   auto prev = global_main.exchange(this);
@@ -36,13 +42,13 @@ void app::install() {
 }
 
 best::pretext<wtf8> app::exe() {
-  if (real_argv.is_empty()) { return ""; }
-  return real_argv[0];
+  if (real_argv().is_empty()) { return ""; }
+  return real_argv()[0];
 }
 
 best::span<const best::pretext<wtf8>> app::argv() {
-  if (real_argv.is_empty()) { return {}; }
-  return real_argv[{.start = 1}];
+  if (real_argv().is_empty()) { return {}; }
+  return real_argv()[{.start = 1}];
 }
 
 [[noreturn]] void app::start(int argc, char** argv) {
@@ -57,7 +63,7 @@ best::span<const best::pretext<wtf8>> app::argv() {
   }
 
   for (char* arg : best::span(argv, argc)) {
-    real_argv.push(best::pretext<wtf8>::from_nul(arg));
+    real_argv().push(best::pretext<wtf8>::from_nul(arg));
   }
 
   std::exit(main->shim_(main->main_));
-- 
2.43.0


From 6f696c97741f374bbdd22785887cc19be50ca5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 078/102] fix: check the size of views with a fixed size

The constructor compared the size of the span with itself, so a
best::span<T, n> of fewer than n elements could be made.
---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index cf51713..5fc285c 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -848,8 +848,8 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    best::bounds{.start = this->size(), .count = 0}.compute_count(size, loc);
+    best::bounds{.start = size, .count = 0}.compute_count(this->size(), loc);
   } else {
     size_ = size;
   }
-- 
2.43.0


From 595eacfbb5bf0a8f59d74606c0c2ad5a917d6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 079/102] fix: check ranges given as values to
 best::span::operator[]

For spans whose size is not fixed, the range was not compared with the
actual size.
---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 5fc285c..06caed0 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -986,7 +986,7 @@ constexpr auto span<T, n>::operator[](best::vlist<range>) const
   requires (range.try_compute_count(best::static_size<span>).has_value())
 {
   constexpr auto count = range.try_compute_count(best::static_size<span>);
-  return with_extent<count>(data() + range.start, *count);
+  return with_extent<count>((*this)[range]);
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
-- 
2.43.0


From b10d204aa1741e11808300c1a88275637a628840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 080/102] fix: accept inclusive ranges in
 best::span::at(unsafe)

It used .end, which is absent, instead of .including_end.
---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 06caed0..d294ba3 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1009,7 +1009,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From dfee3c75f0e06d85ff1de501557ec9b6ebfdf7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 081/102] fix: make searching, splitting and ordering spans of
 fixed size compile

They assumed that the rest of a span has the type of the whole.
---
 best/memory/span.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index d294ba3..6b226bb 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1035,10 +1035,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr best::option<std::array<best::span<T>, 2>> span<T, n>::split_at(
   size_t idx) const {
   if (auto prefix = at({.end = idx})) {
-    auto rest = *this;
-    rest.data_ += idx;
-    rest.size_ -= idx;
-    return {{*prefix, rest}};
+    return {{*prefix, best::span<T>(data() + idx, size() - idx)}};
   }
 
   return best::none;
@@ -1064,16 +1061,17 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
 
   if constexpr (best::is_span<R>) {
     using U = best::data_type<R>;
+    best::span<T> haystack = *this;
+    best::span<U> pattern = needle;
     if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::search(*this, needle);
+      return best::bytes_internal::search(haystack, pattern);
     } else if (!std::is_constant_evaluated()) {
       if constexpr (best::bytes_internal::byte_comparable<T, U>) {
-        return best::bytes_internal::search(*this, needle);
+        return best::bytes_internal::search(haystack, pattern);
       }
     }
 
-    auto haystack = *this;
-    auto [first, rest] = *needle.split_first();
+    auto [first, rest] = *pattern.split_first();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible start.
       size_t next = 0;
@@ -1109,8 +1107,9 @@ constexpr best::option<size_t> span<T, n>::rfind(const R& needle) const
   if (best::size(needle) == 0) { return 0; }
 
   if constexpr (best::is_span<R>) {
-    auto haystack = *this;
-    auto [last, rest] = *needle.split_last();
+    best::span<T> haystack = *this;
+    best::span<best::data_type<R>> pattern = needle;
+    auto [last, rest] = *pattern.split_last();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible end.
       size_t next = haystack.size() - 1;
@@ -1424,11 +1423,13 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   if (std::is_constant_evaluated()) {
     if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
                   best::bytes_internal::byte_orderable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   } else {
     if constexpr (best::bytes_internal::byte_orderable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   }
 
-- 
2.43.0


From c7a88f6b3c0fa3202bf856944df053ba578198e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 082/102] fix: make best::span::from_nul() compile for bytes

__builtin_strlen() accepts only char.
---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 6b226bb..d0b30f3 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -917,7 +917,8 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n> span<T, n>::from_nul(T* data) {
   if (data == nullptr) { return {data, 0}; }
 
-  if constexpr (best::bytes_internal::constexpr_byte_comparable<T>) {
+  if constexpr (best::bytes_internal::constexpr_byte_comparable<T> &&
+                best::same<best::as_auto<T>, char>) {
     if (BEST_CONSTEXPR_MEMCMP_ || !std::is_constant_evaluated()) {
       size_t len =
 #if BEST_CONSTEXPR_MEMCMP_
-- 
2.43.0


From 4e380a80507f43f38cdad195c1f1e2558f0d0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 083/102] fix: compare results with single values in the order
 of results

A result is a choice between T and E, so two results order successes before
errors; comparing a result with a bare success or error said the opposite,
and the overloads for ok(u) and err(u) did not compile.
---
 best/container/result.h | 47 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..0493330 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -333,33 +333,40 @@ class [[nodiscard(
     const best::result<U, F>& that) const {
     return impl() <=> that.impl();
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
+  /// Every `ok()` is less than every `err()`.
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    const U& u) const {
+    if (is_ok()) { return impl()[best::index<0>] <=> u; }
+    return best::Greater;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
+  template <best::comparable<E> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    const U& u) const {
+    if (is_err()) { return impl()[best::index<1>] <=> u; }
+    return best::Less;
   }
   template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_ok()) {
+      return impl()[best::index<0>] <=> u.args.row[best::index<0>];
+    }
+    return best::Greater;
   }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_err()) {
+      return impl()[best::index<1>] <=> u.args.row[best::index<0>];
+    }
+    return best::Less;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::ok<>) const {
+    return is_ok() ? best::ord::equal : best::ord::greater;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::err<>) const {
+    return is_err() ? best::ord::equal : best::ord::less;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
-- 
2.43.0


From 4fe83cd0262d8f8fc72a6aa1349921c11124467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 084/102] fix: order texts by their runes in every encoding

Comparing code units does not order UTF-16 as it orders the same text in
UTF-8 or UTF-32: surrogates sort before U+E000..U+FFFF.
---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 1744c51..b060610 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1774,7 +1774,7 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
+                  About.is_lexicographic &&
                   best::same<pretext, best::as_auto<decltype(str)>>) {
       return span_ <=> str.as_codes();
     }
-- 
2.43.0


From 6f877c40ab2e9f944f77990fd513957f14ab7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 085/102] fix: order a text longer than a rune after it

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index b060610..3413326 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1766,7 +1766,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> 0;
 }
 
 template <typename E>
-- 
2.43.0


From fe84ad273c08a1ac61d587f4bf748644a748b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 086/102] fix: make rows orderable

---
 best/container/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..f823852 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,13 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr auto operator<=>(const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
-- 
2.43.0


From bebf8223d97be75a779123f6a0fd166adc022813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:54 +0000
Subject: [PATCH 087/102] fix: do not dereference null when comparing options
 of references with pointers

---
 best/container/option.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index fe4e4cb..c0ff5e0 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -719,8 +719,8 @@ class option final {
   template <best::equatable<T> U>
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
-    return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+    if (is_empty() || u == nullptr) { return is_empty() && u == nullptr; }
+    return value(unsafe("just checked has_value()")) == *u;
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From cd07a5738c617b24ebfdb37455c20520fccc4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:07 +0000
Subject: [PATCH 088/102] fix: do not mistake values of options and results for
 niches

best::option<best::option<best::rune>>, best::option<best::option<best::box<T>>>
and best::option<best::result<best::box<T>, best::ioerr>> were laid out as
if the inner type had a niche, because it can be made of and compared with
a best::niche of its contents; when empty, they said that they had a value.
---
 best/container/option.h |  5 ++++-
 best/container/result.h | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index c0ff5e0..ad19c05 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -712,8 +712,11 @@ class option final {
   constexpr bool operator==(const best::option<U>& that) const {
     return impl() == that.impl();
   }
+  // A niche of T is not a niche of option<T>, which can be empty.
   template <best::equatable<T> U>
-  constexpr bool operator==(const U& u) const {
+  constexpr bool operator==(const U& u) const
+    requires (!best::same<U, best::niche>)
+  {
     return has_value() && value(unsafe("just checked has_value()")) == u;
   }
   template <best::equatable<T> U>
diff --git a/best/container/result.h b/best/container/result.h
index 0493330..035b66a 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -305,12 +305,18 @@ class [[nodiscard(
 
   /// NOTE: these implementations are written to minimize gratuitous
   /// instantiations of option<auto&>.
+  ///
+  /// A niche of T or E is not a niche of result<T, E>.
   BEST_INLINE_SYNTHETIC constexpr bool operator==(
-    const best::equatable<T> auto& u) const {
+    const best::equatable<T> auto& u) const
+    requires (!best::same<best::as_auto<decltype(u)>, best::niche>)
+  {
     return is_ok() && impl()[best::index<0>] == u;
   }
   BEST_INLINE_SYNTHETIC constexpr bool operator==(
-    const best::equatable<E> auto& u) const {
+    const best::equatable<E> auto& u) const
+    requires (!best::same<best::as_auto<decltype(u)>, best::niche>)
+  {
     return is_err() && impl()[best::index<1>] == u;
   }
   template <best::equatable<T> U>
-- 
2.43.0


From 44b213e910952a9aec22fc12a1d7b072728587dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:25 +0000
Subject: [PATCH 089/102] fix: order arrays only if their elements can be
 ordered

best::comparable held for arrays of elements that can only be compared for
equality, and using it did not compile.
---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 9c77e0e..0c9fe88 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -455,7 +455,7 @@ class vec final {
     return as_span() == best::span(range);
   }
   auto operator<=>(const contiguous auto& range) const
-    requires best::equatable<T, decltype(*best::data(range))>
+    requires best::comparable<T, decltype(*best::data(range))>
   {
     return as_span() <=> best::span(range);
   }
-- 
2.43.0


From 13f2a9dc957195ece7f2c4e123a14c98cc6d50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:28 +0000
Subject: [PATCH 090/102] fix: compare elements of different types by their own
 operators

Spans of signed char and unsigned char (or short and unsigned short) were
equal where their elements are not, and so were spans of two types of the
same size that can be compared with each other in a way of their own.
---
 best/memory/internal/bytes.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index fca841f..f89c320 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -50,9 +50,23 @@ size_t strlen(const char*) noexcept;
 template <typename>
 struct tag {};
 
+// Whether values of two types are equal exactly when their representations are,
+// as far as that depends on how one is converted to the other. Types of integers
+// narrower than `int` are promoted without regard to their signedness.
+//
+// `char` is treated as an unsigned byte regardless of its signedness.
+template <typename T, typename U>
+concept same_values =
+  best::same<best::as_auto<T>, best::as_auto<U>> ||
+  (std::is_integral_v<T> && std::is_integral_v<U> &&
+   (sizeof(T) >= sizeof(int) ||
+    (std::is_unsigned_v<T> || best::same<best::as_auto<T>, char>) ==
+      (std::is_unsigned_v<U> || best::same<best::as_auto<U>, char>)));
+
 template <typename T, typename U>
 void can_memcmp(tag<T>, tag<U>) requires requires {
   requires sizeof(T) == sizeof(U);
+  requires same_values<T, U>;
 #if BEST_HAS_BUILTIN(__is_trivially_equality_comparable)
   requires __is_trivially_equality_comparable(T);
   requires __is_trivially_equality_comparable(U);
-- 
2.43.0


From a907a81be338d7b9b080e62a4f5abaf148130c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:15 +0000
Subject: [PATCH 091/102] fix: return the alternative from choice::object() of
 temporaries

The rvalue overload had no return statement, and the const rvalue overload
did not compile.
---
 best/container/choice.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..ba5abc2 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,18 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From f55f4820b7e0a86c118ae2b6b2e902f8bbeed2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:10 +0000
Subject: [PATCH 092/102] fix: move an array out of something that the assigned
 array owns

Such as in node.children = std::move(node.children[0]->children).
---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 0c9fe88..a093547 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -582,7 +582,11 @@ vec<T, max_inline, A>::vec(vec&& that) : vec(std::move(that.allocator())) {
 }
 template <best::relocatable T, size_t max_inline, best::allocator A>
 auto vec<T, max_inline, A>::operator=(vec&& that) -> vec& {
-  move_construct(std::move(that), true);
+  if (best::equal(this, &that)) { return *this; }
+  // NOTE: `that` may be owned by one of the elements of this vector, so it must
+  // be moved out of before any of those is destroyed.
+  vec tmp(std::move(that));
+  move_construct(std::move(tmp), true);
   return *this;
 }
 
-- 
2.43.0


From a89c6fbcec7bf765ef63cdd705b7981cb6e2e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:10 +0000
Subject: [PATCH 093/102] fix: assign choices from something that the current
 alternative owns

Such as in list = std::move(list[best::index<1>]->next).
---
 best/container/internal/choice.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 6e655e9..7256113 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -184,6 +184,14 @@ class impl : public storage<Ts...> {
   {
     // emplace() may destroy the current value before making the new one.
     if (this == &that) { return *this; }
+    if (tag() != that.tag()) {
+      // NOTE: `that` may be owned by the current value, so it must be copied
+      // before that value is destroyed.
+      impl tmp(that);
+      std::destroy_at(this);
+      std::construct_at(this, BEST_MOVE(tmp));
+      return *this;
+    }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -203,6 +211,13 @@ class impl : public storage<Ts...> {
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
     if (this == &that) { return *this; }
+    if (tag() != that.tag()) {
+      // As above, but `that` must be moved out of.
+      impl tmp(BEST_MOVE(that));
+      std::destroy_at(this);
+      std::construct_at(this, BEST_MOVE(tmp));
+      return *this;
+    }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From bd317e992f206a94a21d627ba38d60713925fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:18 +0000
Subject: [PATCH 094/102] fix: format the least value of signed integers

Negating it overflows, which left a negative number whose digits were then
computed (and refused).
---
 best/text/internal/format_impls.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..5bd066d 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -141,19 +141,21 @@ void BestFmt(auto& fmt, best::is_int auto value) {
       break;
   }
 
+  // NOTE: The least value of a signed type has no positive counterpart.
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto rest = best::to_unsigned(value);
+  if (negative) { rest = best::to_unsigned(0 - rest); }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(rest % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    rest /= base;
+  } while (rest != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From 5249ab186cbfd5648c7b7e548bf617fbbef25011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:18 +0000
Subject: [PATCH 095/102] fix: write nothing of a text formatted with precision
 zero

The counter was decremented before it was compared with zero, so a precision
of zero did not limit the text at all.
---
 best/text/internal/format_impls.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 5bd066d..8f99336 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -218,10 +218,7 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     if (auto prec = spec.prec) {
       size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
-      }
+      while (max > 0 && runes.next()) { --max; }
       str = str[{.end = str.size() - runes->rest().size()}];
     }
 
-- 
2.43.0


From 63a86a622f0f71de0daf56db3f1632039885f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:22 +0000
Subject: [PATCH 096/102] fix: include the type that box::into_raw() returns

Callers that include no more than box.h could not give up a box's value.
---
 best/container/box.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/container/box.h b/best/container/box.h
index 58bec29..096ad28 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -25,6 +25,7 @@
 #include "best/base/tags.h"
 #include "best/container/object.h"
 #include "best/container/option.h"
+#include "best/container/row.h"
 #include "best/func/dyn.h"
 #include "best/memory/allocator.h"
 #include "best/memory/layout.h"
-- 
2.43.0


From 841cc8082fbe3fdeb76fed1804064973b27cd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:48 +0000
Subject: [PATCH 097/102] fix: escape control characters in hexadecimal

The digits after \x were decimal ones, which stand for another character.
---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..118df4a 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From 349a57daec2420d419d12c80c3575ce4885ca4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:48 +0000
Subject: [PATCH 098/102] fix: write all of the error that a result was
 unwrapped with

Up to now, the message ended at the first NUL, and nothing was written of one
that is larger than an int.
---
 best/text/format.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index f771dd8..8a8480a 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -603,8 +603,12 @@ struct fmt final {
       } else {
         auto message = best::format("unwrapped a best::err({:?})",
                                     best::make_formattable(*err));
-        best::crash_internal::crash("%.*s", int(message.size()),
-                                    message.data());
+        // NOTE: Not crash("%.*s"), which would write no more than comes before
+        // the first NUL.
+        best::crash_internal::die(best::here,
+                                  [&](char*, size_t, auto write) {
+                                    write(message.data(), message.size());
+                                  });
       }
     }
   }
-- 
2.43.0


From ea60469ccbccf437b06005c8d0c816f7b72e822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:11 +0000
Subject: [PATCH 099/102] fix: use the types given to row::scatter()

They were ignored: the new elements were of the types of those provided.
---
 best/container/row.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index f823852..f2e2144 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1345,7 +1345,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1354,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1363,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1373,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From a5e79ca562ecfce7be89e97bf575598eeb30a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:11 +0000
Subject: [PATCH 100/102] fix: move what row::scatter() may move

The elements of a row that may be moved from were copied, and could not be
scattered at all when they cannot be copied.
---
 best/container/internal/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index 19295ed..ec43ff6 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -200,9 +200,9 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       ((i < lut.size() ? lut[i] = n++ : 0), ...);
       return lut;
     }();
-    return those.apply([&](auto&&... args) {
+    return BEST_FWD(those).apply([&](auto&&... args) {
       return Out{best::row{best::bind, BEST_FWD(row)[J{}],
-                           args...}[best::index<lut[J::value]>]...};
+                           BEST_FWD(args)...}[best::index<lut[J::value]>]...};
     });
   });
 }
-- 
2.43.0


From e539bb2414de57f63795497bab0f3eeef1ae0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:11 +0000
Subject: [PATCH 101/102] fix: gather and scatter rows with void elements

A void expression cannot be passed on.
---
 best/container/internal/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index ec43ff6..8a42f35 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -177,7 +177,7 @@ constexpr auto gather(auto&& row)
 {
   using Out =
     decltype(row.types.template gather<i...>().template apply<best::row>());
-  return Out{BEST_FWD(row)[best::index<i>]...};
+  return Out{BEST_FWD(row).get(best::index<i>)...};
 }
 template <size_t... i>
 constexpr auto scatter(auto&& row, auto those_types, auto&& those)
@@ -201,7 +201,7 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       return lut;
     }();
     return BEST_FWD(those).apply([&](auto&&... args) {
-      return Out{best::row{best::bind, BEST_FWD(row)[J{}],
+      return Out{best::row{best::bind, BEST_FWD(row).get(J{}),
                            BEST_FWD(args)...}[best::index<lut[J::value]>]...};
     });
   });
-- 
2.43.0


From 928a02ed1546c008148ef0ce1f7c659be9749b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:53 +0000
Subject: [PATCH 102/102] fix: give the size of long inlined arrays the bits
 that it needs

An array with room for 128 to 255 elements inline stored its size in one
byte, whose topmost bit says whether the elements are on the heap.
---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index a093547..7869297 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -480,9 +480,9 @@ class vec final {
 
   /// The number of bytes needed to store the size of an inlined vector.
   static constexpr size_t SizeBytes = [] {
-    size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
+    size_t bits = best::bits_for(max_inline) + 1;
     return best::ceildiv(bits, 8).wrap();
   }();
 
-- 
2.43.0

