From 55d722618c4b6e27a3490d5adf27c8d100773cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 01/31] fix: refuse host allocations whose padded size
 overflows

---
 core/src/memory/host_memory_resource.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..2c0dd8e 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -37,6 +37,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    // Requests too big to be rounded up can never be fulfilled.
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +52,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    // Requests too big to be padded can never be fulfilled.
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From f9f9190d66daa18842cedba9fe803047d618bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:04 +0000
Subject: [PATCH 02/31] fix: memory_monitor::average_allocation without any
 allocation

---
 core/src/utils/memory_monitor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..1b13cb4 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,11 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // Without any allocations there is nothing to average.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
+
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From bf333e5befc2939b666ab4591e702da6c28a9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 03/31] fix: array::front() const did not compile

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From 268f694200e7596bd55e697533d866552689e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 04/31] fix: static_vector(size, value) destroyed elements that
 were never constructed

---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From 1b639b0ee793eec803d32c334e8089b4e9cb07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 05/31] fix: static_vector copy assignment duplicated the bytes
 of its elements

---
 .../vecmem/containers/impl/static_vector.ipp  | 20 +++++++++++++++++++
 .../vecmem/containers/static_vector.hpp       |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..5076104 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -42,6 +42,26 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::operator=(
+    const static_vector& rhs) -> static_vector& {
+
+    // Prevent self-assignment.
+    if (this == &rhs) {
+        return *this;
+    }
+
+    // Replace all elements with copies of the elements of the other vector.
+    clear();
+    for (size_type i = 0; i < rhs.m_size; ++i) {
+        construct(i, rhs[i]);
+    }
+    m_size = rhs.m_size;
+
+    // Return this (updated) object.
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..c493cdd 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -97,6 +97,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
 
+    /// Copy assignment
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// @}
 
     /// @name Vector element access functions
-- 
2.43.0


From 5cdefcca29b1399542c5734558ce5b1fb98f87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 06/31] fix: static_vector did not align its storage for the
 element type

---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index c493cdd..5c11135 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -320,7 +320,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From 534b1f424b62e359811d8db942d2bb594a3c2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 07/31] fix: static_vector moved elements of any type with
 memmove

---
 .../vecmem/containers/impl/static_vector.ipp  | 44 ++++++++++++-------
 .../vecmem/containers/static_vector.hpp       |  4 ++
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 5076104..87bd41e 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -9,6 +9,7 @@
 // System include(s).
 #include <cassert>
 #include <cstring>
+#include <type_traits>
 #include <utility>
 
 namespace vecmem {
@@ -186,9 +187,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + 1);
 
     // Instantiate the new value.
     construct(id.m_index, value);
@@ -211,9 +210,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + count),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + count);
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
@@ -239,9 +236,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + 1);
 
     // Instantiate the new value.
     new (id.m_ptr) value_type(std::forward<Args>(args)...);
@@ -279,9 +274,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     destruct(id.m_index);
 
     // Move up the payload of the elements from after the removed one.
-    memmove(static_cast<void*>(id.m_ptr),
-            static_cast<const void*>(id.m_ptr + 1),
-            (m_size - id.m_index - 1) * value_size);
+    relocate(id.m_index + 1, id.m_index);
 
     // Decrement the size.
     --m_size;
@@ -305,9 +298,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     }
 
     // Move up the payload of the elements from after the removed range.
-    memmove(static_cast<void*>(first_id.m_ptr),
-            static_cast<const void*>(last_id.m_ptr),
-            (m_size - last_id.m_index) * value_size);
+    relocate(last_id.m_index, first_id.m_index);
 
     // Decrease the size.
     m_size -= (last_id.m_index - first_id.m_index);
@@ -503,6 +494,29 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::destruct(
     ptr->~value_type();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::relocate(
+    size_type from, size_type to) {
+
+    pointer const ptr = reinterpret_cast<pointer>(m_elements);
+    if constexpr (std::is_trivially_copyable<value_type>::value ||
+                  !std::is_move_constructible<value_type>::value) {
+        memmove(static_cast<void*>(ptr + to),
+                static_cast<const void*>(ptr + from),
+                (m_size - from) * value_size);
+    } else if (from < to) {
+        for (size_type i = m_size; i > from; --i) {
+            new (ptr + (i - 1 + to - from)) value_type(std::move(ptr[i - 1]));
+            destruct(i - 1);
+        }
+    } else if (to < from) {
+        for (size_type i = from; i < m_size; ++i) {
+            new (ptr + (i - from + to)) value_type(std::move(ptr[i]));
+            destruct(i);
+        }
+    }
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::ElementId
 static_vector<TYPE, MAX_SIZE>::element_id(const_iterator pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 5c11135..e0c3910 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -308,6 +308,10 @@ private:
     VECMEM_HOST_AND_DEVICE
     void destruct(size_type pos);
 
+    /// Move the elements from index @c from onwards to start at index @c to
+    VECMEM_HOST_AND_DEVICE
+    void relocate(size_type from, size_type to);
+
     /// Helper type for identifying an element in the array
     struct ElementId {
         size_type m_index;
-- 
2.43.0


From 6d4e175ec1bf40bbf41c8d29d95c94d88832ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 08/31] fix: static_vector inserted a wrong value when given
 one of its own elements

---
 .../vecmem/containers/impl/static_vector.ipp  | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 87bd41e..8b87c3f 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -186,11 +186,14 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // The value may be an element of this vector, which is about to move.
+    const value_type copy(value);
+
     // Move the payload of the existing elements after "pos".
     relocate(id.m_index, id.m_index + 1);
 
     // Instantiate the new value.
-    construct(id.m_index, value);
+    construct(id.m_index, copy);
 
     // Increment the size.
     ++m_size;
@@ -209,12 +212,15 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // The value may be an element of this vector, which is about to move.
+    const value_type copy(value);
+
     // Move the payload of the existing elements after "pos".
     relocate(id.m_index, id.m_index + count);
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, copy);
     }
 
     // Increment the size.
@@ -235,11 +241,16 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    relocate(id.m_index, id.m_index + 1);
-
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    // Move the payload of the existing elements after "pos", and instantiate
+    // the new value. The arguments may refer to an element that moves.
+    if constexpr (std::is_move_constructible<value_type>::value) {
+        value_type value(std::forward<Args>(args)...);
+        relocate(id.m_index, id.m_index + 1);
+        new (id.m_ptr) value_type(std::move(value));
+    } else {
+        relocate(id.m_index, id.m_index + 1);
+        new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    }
 
     // Increment the size.
     ++m_size;
-- 
2.43.0


From ebe11eb8c4e973733dc87a216026003c38f60937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 09/31] fix: jagged iterators did not convert to iterators over
 constant rows

---
 .../containers/details/jagged_device_vector_iterator.hpp  | 8 +++++++-
 .../containers/impl/jagged_device_vector_iterator.ipp     | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..0d46fd0 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -103,7 +103,9 @@ public:
     VECMEM_HOST_AND_DEVICE
     jagged_device_vector_iterator(const jagged_device_vector_iterator& parent);
     /// Copy constructor
-    template <typename T>
+    template <
+        typename T,
+        std::enable_if_t<details::is_same_nc<TYPE, T>::value, bool> = true>
     VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator(
         const jagged_device_vector_iterator<T>& parent);
 
@@ -173,6 +175,10 @@ public:
     /// @}
 
 private:
+    /// Iterators over elements of a different const-ness convert to this one
+    template <typename T>
+    friend class jagged_device_vector_iterator;
+
     /// Pointer to the data (in an array)
     data_pointer m_ptr;
 
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..be47e07 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -58,11 +58,12 @@ jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     : m_ptr(parent.m_ptr) {}
 
 template <typename TYPE>
-template <typename T>
+template <typename T,
+          std::enable_if_t<details::is_same_nc<TYPE, T>::value, bool> >
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    : m_ptr(reinterpret_cast<data_pointer>(parent.m_ptr)) {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From b36b78d6ed0c7cef57d908593a0320480d13dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 10/31] fix: unique pointer helpers ignored the alignment of
 over-aligned types

---
 core/include/vecmem/memory/unique_ptr.hpp | 52 +++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..c058558 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -17,6 +18,22 @@
 #include "vecmem/vecmem_core_export.hpp"
 
 namespace vecmem {
+namespace details {
+/**
+ * @brief The alignment with which memory is requested for objects of a type.
+ *
+ * This is the default alignment of memory resources, unless the type needs a
+ * stricter one.
+ *
+ * @tparam T The (element) type of the object(s).
+ */
+template <typename T>
+constexpr std::size_t unique_alignment =
+    (alignof(std::remove_all_extents_t<T>) > alignof(std::max_align_t)
+         ? alignof(std::remove_all_extents_t<T>)
+         : alignof(std::max_align_t));
+}  // namespace details
+
 /**
  * @brief A unique pointer type for non-trivial objects.
  *
@@ -79,7 +96,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::unique_alignment<T>));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +107,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_alignment<T>));
 }
 
 /**
@@ -121,7 +139,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(
+        m.allocate(s, details::unique_alignment<T>));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +152,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_alignment<T>, n));
 }
 
 /**
@@ -186,12 +206,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(
+        m.allocate(s, details::unique_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>));
 }
 
 /**
@@ -247,12 +269,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(
+        m.allocate(s, details::unique_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>));
 }
 
 /**
@@ -319,14 +343,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(
+        m.allocate(s, details::unique_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>));
 }
 
 /**
@@ -396,13 +422,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(
+        m.allocate(s, details::unique_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>));
 }
 }  // namespace vecmem
-- 
2.43.0


From dbe72d8e18c197fe60a22c52ad34174690c4bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 11/31] fix: typed allocation helpers leaked memory if a
 constructor threw

---
 core/include/vecmem/memory/impl/allocator.ipp |  9 +++++++--
 core/include/vecmem/memory/unique_ptr.hpp     | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..31d1995 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -39,7 +39,7 @@ T *allocator::new_object(Args &&... args) {
      * constructing. We use the allocate_object method for this, with the
      * default argument of 1 for a single object.
      */
-    void *p = allocate_object<T>();
+    T *p = allocate_object<T>();
 
     /*
      * Next, we use the placement new operation to construct the object in
@@ -47,7 +47,12 @@ T *allocator::new_object(Args &&... args) {
      * forward the arguments passed to this method so they can be used to
      * call the constructor of the class.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(p);
+        throw;
+    }
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index c058558..58e5d6e 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -102,7 +102,12 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * Perform a placement-new with forwarded arguments to construct the
      * object.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, details::unique_alignment<T>);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -145,8 +150,15 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Use placement-new to default-construct each of our elements.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        std::destroy_n(p, i);
+        m.deallocate(p, s, details::unique_alignment<T>);
+        throw;
     }
 
     /*
-- 
2.43.0


From 470a3be2d524ad26e0f2636b0fe1f6d90ffc9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 12/31] fix: typed allocation helpers wrapped around for too
 many elements

---
 core/include/vecmem/memory/impl/allocator.ipp |  5 ++++
 core/include/vecmem/memory/unique_ptr.hpp     | 25 ++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 31d1995..f1bba4c 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -9,6 +9,8 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
+#include <new>
 
 namespace vecmem {
 template <typename T>
@@ -19,6 +21,9 @@ T *allocator::allocate_object(std::size_t n) {
      * also use the compiler's knowledge about the alignment requirements of
      * the class.
      */
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
     return static_cast<T *>(m_mem.allocate(n * sizeof(T), alignof(T)));
 }
 
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 58e5d6e..30c6649 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -9,7 +9,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <type_traits>
 
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
@@ -32,6 +34,23 @@ constexpr std::size_t unique_alignment =
     (alignof(std::remove_all_extents_t<T>) > alignof(std::max_align_t)
          ? alignof(std::remove_all_extents_t<T>)
          : alignof(std::max_align_t));
+
+/**
+ * @brief The number of bytes occupied by an array.
+ *
+ * @tparam T The type of the elements.
+ *
+ * @param n The number of elements.
+ *
+ * @throws std::bad_array_new_length if that number is not representable.
+ */
+template <typename T>
+std::size_t array_bytes(std::size_t n) {
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(T);
+}
 }  // namespace details
 
 /**
@@ -143,7 +162,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(
         m.allocate(s, details::unique_alignment<T>));
 
@@ -280,7 +299,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(
         m.allocate(s, details::unique_alignment<T>));
 
@@ -433,7 +452,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(
         m.allocate(s, details::unique_alignment<T>));
 
-- 
2.43.0


From ee22d4ed55ae3cda599e16bebb986d8795fd066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 13/31] fix: aligned_multiple_placement wrapped around for too
 many elements

---
 .../containers/impl/aligned_multiple_placement.ipp  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/aligned_multiple_placement.ipp b/core/include/vecmem/containers/impl/aligned_multiple_placement.ipp
index e059b62..b86f5cc 100644
--- a/core/include/vecmem/containers/impl/aligned_multiple_placement.ipp
+++ b/core/include/vecmem/containers/impl/aligned_multiple_placement.ipp
@@ -13,6 +13,8 @@
 
 // Standard library headers
 #include <algorithm>
+#include <limits>
+#include <new>
 #include <tuple>
 #include <type_traits>
 
@@ -174,9 +176,14 @@ aligned_multiple_placement(vecmem::memory_resource &r, Ps &&... ps) {
      * for the common case, but potentially up to a few kilobytes for severely
      * over-aligned types).
      */
-    const std::size_t bytes =
-        ((static_cast<std::size_t>(ps) * sizeof(Ts)) + ...) +
-        sizeof...(Ts) * alignment;
+    std::size_t bytes = sizeof...(Ts) * alignment;
+    const auto add_bytes = [&bytes](std::size_t n, std::size_t size) {
+        if (n > (std::numeric_limits<std::size_t>::max() - bytes) / size) {
+            throw std::bad_array_new_length();
+        }
+        bytes += n * size;
+    };
+    (add_bytes(static_cast<std::size_t>(ps), sizeof(Ts)), ...);
 
     /*
      * We can now make the allocation request with the memory resource, which
-- 
2.43.0


From d008a2eec635c0fd4f97c567d79d38bf0604d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 14/31] fix: fixed-size jagged buffers ignored the alignment of
 over-aligned types

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 04b629468aae7f0e0bb231fcc3ab83542a920eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 15/31] fix: zero is not a power of two

---
 core/src/utils/integer_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/utils/integer_math.hpp b/core/src/utils/integer_math.hpp
index 0f634d2..7a80e51 100644
--- a/core/src/utils/integer_math.hpp
+++ b/core/src/utils/integer_math.hpp
@@ -25,7 +25,8 @@ namespace vecmem::details {
 ///
 inline bool is_power_of_2(std::size_t x) {
 
-    return ((x & (x - 1)) == static_cast<std::size_t>(0));
+    return ((x != static_cast<std::size_t>(0)) &&
+            ((x & (x - 1)) == static_cast<std::size_t>(0)));
 }
 
 /// Count the leading zeroes in a number
-- 
2.43.0


From 8acab3e5da87d2816bbabbb293c355d934fe5600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:57 +0000
Subject: [PATCH 16/31] fix: copying an empty vector left the size of a
 resizable target unchanged

---
 core/include/vecmem/utils/impl/copy.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..a02e797 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -492,8 +492,9 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
+    // If it's zero, don't do an actual copy. Unless the size of the target needs
+    // to be set to zero.
+    if ((size == 0u) && (to_view.size_ptr() == nullptr)) {
         return false;
     }
 
@@ -534,7 +535,9 @@ bool copy::copy_view_impl(
     }
 
     // Copy the payload.
-    do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    if (size != 0u) {
+        do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    }
     return true;
 }
 
-- 
2.43.0


From 300873b5d520438f8698b3889ba768cfcb741efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 17/31] fix: copy::set_sizes: refuse every inconsistent target,
 also if its first rows are resizable

---
 core/include/vecmem/utils/impl/copy.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index a02e797..480bf5d 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -293,7 +293,7 @@ copy::event_type copy::set_sizes(
     }
     // Make sure that the target jagged vector is either resizable, or it has
     // the correct sizes/capacities already.
-    bool perform_copy = true;
+    const bool perform_copy = (data.host_ptr()->size_ptr() != nullptr);
     for (typename data::jagged_vector_view<TYPE>::size_type i = 0;
          i < data.size(); ++i) {
         // Perform a capacity check in all cases. Whether or not the target is
@@ -307,9 +307,7 @@ copy::event_type copy::set_sizes(
         }
         // Make sure that the inner vectors are consistently either all
         // resizable, or none of them are.
-        if (data.host_ptr()[i].size_ptr() == nullptr) {
-            perform_copy = false;
-        } else if (perform_copy == false) {
+        if ((data.host_ptr()[i].size_ptr() != nullptr) != perform_copy) {
             throw std::runtime_error(
                 "Inconsistent target jagged vector view received for resizing");
         }
-- 
2.43.0


From 130b344b7cac9702f849cff410c22814b5e33308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:23 +0000
Subject: [PATCH 18/31] fix: copy::memset: do nothing for an empty jagged
 vector instead of dereferencing its null description

---
 core/include/vecmem/utils/impl/copy.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 480bf5d..1338a4f 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,8 +176,13 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
-    if (is_contiguous(data.host_ptr(), data.capacity())) {
+    if (is_contiguous(data.host_ptr(), data.size())) {
         // For contiguous jagged vectors we can just do a single memset
         // operation. First, let's calculate the "total size" of the jagged
         // vector.
-- 
2.43.0


From e7730e781c24a287ee8e0153a4952af65cbe7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:57 +0000
Subject: [PATCH 19/31] fix: pool_memory_resource: give live oversized blocks
 back to the upstream upon destruction

---
 core/src/memory/details/pool_memory_resource_impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..0fc8ffb 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -87,8 +87,9 @@ pool_memory_resource_impl::~pool_memory_resource_impl() {
                                     m_options.alignment);
     }
 
-    // Deallocate the cached oversized/overaligned memory.
-    for (oversized_block_descriptor& block : m_cached_oversized) {
+    // Deallocate all of the oversized/overaligned memory. The cached blocks are
+    // a subset of these.
+    for (oversized_block_descriptor& block : m_oversized) {
         m_upstream.get().deallocate(block.pointer, block.size, block.alignment);
     }
 }
-- 
2.43.0


From 72237785de89f1768ea0d81444eefe4c2ea5bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 20/31] fix: pool_memory_resource: always get at least one
 block from the upstream

---
 core/src/memory/details/pool_memory_resource_impl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 0fc8ffb..0b9f8d0 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -196,12 +196,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             }
         }
 
+        // The options may not ask for (or even allow) a single block of this
+        // size, but one is needed for serving the request.
+        n = std::max(n, static_cast<std::size_t>(1));
+
         bytes = n << bytes_log2;
 
         assert(n >= m_options.min_blocks_per_chunk);
-        assert(n <= m_options.max_blocks_per_chunk);
+        assert((n == 1) || (n <= m_options.max_blocks_per_chunk));
         assert(bytes >= m_options.min_bytes_per_chunk);
-        assert(bytes <= m_options.max_bytes_per_chunk);
+        assert((n == 1) || (bytes <= m_options.max_bytes_per_chunk));
 
         chunk_descriptor allocated;
         allocated.size = bytes;
-- 
2.43.0


From 9ac5ca058da348e2cb038b82d242d76ef266c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:13 +0000
Subject: [PATCH 21/31] fix: initialise the size of resizable SoA buffers with
 a capacity of zero

---
 core/include/vecmem/utils/impl/copy.ipp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 1338a4f..ba6a4a3 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -333,11 +333,6 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
-        return vecmem::copy::create_event();
-    }
-
     // Copy the data layout to the device, if needed.
     if (data.layout().ptr() != data.host_layout().ptr()) {
         assert(data.layout().capacity() > 0u);
-- 
2.43.0


From 85d36b606f714decb08bfa0bbbc41112a6b9e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:27 +0000
Subject: [PATCH 22/31] fix: do not copy SoA payloads with different row
 capacities in one go

---
 core/include/vecmem/utils/copy.hpp      |  6 +++++
 core/include/vecmem/utils/impl/copy.ipp | 33 ++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..91ec328 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -243,6 +243,12 @@ private:
             from,
         edm::host<edm::schema<VARTYPES...>, INTERFACE>& to,
         type::copy_type cptype) const;
+    /// Helper function checking if two SoA containers have the same shape
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool has_same_shape(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c copy function (for the sizes)
     template <std::size_t INDEX, typename... VARTYPES>
     void copy_sizes_impl(
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index ba6a4a3..f6319e9 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -383,7 +383,8 @@ copy::event_type copy::operator()(
     // layout.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        has_same_shape<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -842,6 +843,36 @@ void copy::resize_impl(
     }
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::has_same_shape(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // The rows of jagged vectors with different capacities would be at
+    // different places in the two payloads.
+    if constexpr (edm::type::details::is_jagged_vector<
+                      typename std::tuple_element<
+                          INDEX, std::tuple<VARTYPES...>>::type>::value) {
+        const auto& from = from_view.template get<INDEX>();
+        const auto& to = to_view.template get<INDEX>();
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            if (from.host_ptr()[i].capacity() != to.host_ptr()[i].capacity()) {
+                return false;
+            }
+        }
+    }
+    // Recurse into the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return has_same_shape<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::copy_sizes_impl(
     [[maybe_unused]] const edm::view<
-- 
2.43.0


From 62338cf39d5f40ae8e0efadb61e810fffaec984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:17 +0000
Subject: [PATCH 23/31] fix: SoA payloads of 4 GiB and more are copied and set
 variable-by-variable

---
 core/include/vecmem/edm/details/buffer_traits.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..88dd9a1 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,7 @@
 
 // System include(s).
 #include <array>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,6 +253,13 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // A payload that is too large for describing it as a single block can only
+    // be handled variable-by-variable.
+    if (static_cast<std::size_t>(end_ptr - ptr) >
+        std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0, nullptr};
+    }
+
     // Construct the result.
     return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
 }
-- 
2.43.0


From 81233e7d0171ec67e6cc9664f3400dd12ca04c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:18 +0000
Subject: [PATCH 24/31] fix: copy SoA buffers of different capacity column by
 column, even if their payloads are equally large

---
 core/include/vecmem/utils/impl/copy.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index f6319e9..f4aa6c8 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -384,6 +384,7 @@ copy::event_type copy::operator()(
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
         (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        (from_view.capacity() == to_view.capacity()) &&
         has_same_shape<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
-- 
2.43.0


From 08ed5be13485fa3b2cbeeeca17383e882e214166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:31 +0000
Subject: [PATCH 25/31] fix: constant access to the jagged variables of
 non-constant device proxies compiles

---
 core/include/vecmem/edm/details/proxy_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 83be1ab..fd23b96 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -159,8 +159,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using return_type = std::add_lvalue_reference_t<type>;
     /// They are returned as const references to the non-const device vector in
     /// const access
-    using const_return_type = std::add_lvalue_reference_t<
-        std::add_const_t<device_vector<std::add_const_t<VTYPE>>>>;
+    using const_return_type =
+        std::add_lvalue_reference_t<std::add_const_t<type>>;
 
     /// Helper function constructing a vector proxy variable
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From 06807cafb9a6495c056d5fcdb8062ff9c3b613ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 26/31] fix: arena superblocks are large enough for the request
 that needs them

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..9346a9d 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -231,7 +231,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-- 
2.43.0


From 6c5c4c7c2905a885ebe2832bb9213fdd2d7eabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 27/31] fix: arena superblocks are added to the free blocks
 once

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 9346a9d..43b2ce3 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -178,7 +178,8 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
     // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
+    bool const merge_prev =
+        previous != next && previous->is_contiguous_before(b);
     bool const merge_next =
         next != free_blocks.cend() && b.is_contiguous_before(*next);
 
@@ -235,11 +236,10 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
-- 
2.43.0


From 6cd4d71e657ddd3cdaf3009bf98976c197bc10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 28/31] fix: empty and unrepresentable arena requests

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 43b2ce3..184f6be 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,7 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <new>
 
 namespace {
 
@@ -119,7 +120,12 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
-    bytes = align_up(bytes);
+    // every block needs an address of its own, even if it is empty
+    bytes = align_up(std::max(bytes, std::size_t{1}));
+    // the aligned size has to be representable
+    if (bytes == 0) {
+        throw std::bad_alloc();
+    }
 
     auto const b = get_block(bytes);
     this->allocated_blocks_.emplace(b);
-- 
2.43.0


From 7714ced1f9744171a719fb40d0190e91e64b1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 29/31] fix: the arena gives its superblocks back as it
 received them

---
 .../details/arena_memory_resource_impl.cpp    | 25 ++++++++-----------
 .../details/arena_memory_resource_impl.hpp    |  4 ++-
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 184f6be..f0210ce 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -104,17 +104,8 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    for (block const& superblock : superblocks_) {
+        mm_.deallocate(superblock.pointer(), superblock.size());
     }
 }
 
@@ -184,10 +175,13 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
     // coalesce with neighboring blocks
-    bool const merge_prev =
-        previous != next && previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
+    // unless they belong to different superblocks
+    bool const merge_prev = previous != next &&
+                            previous->is_contiguous_before(b) &&
+                            superblocks_.count(b) == 0;
+    bool const merge_next = next != free_blocks.cend() &&
+                            b.is_contiguous_before(*next) &&
+                            superblocks_.count(*next) == 0;
 
     block merged{};
     if (merge_prev && merge_next) {
@@ -243,6 +237,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
         size = size_superblocks_;
     }
     block const superblock{mm_.allocate(size), size};
+    superblocks_.insert(superblock);
 
     current_size_ += size;
     return superblock;
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..c54a637 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -118,7 +118,7 @@ private:
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    block coalesce_block(std::set<block>& free_blocks, block const& b);
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -146,6 +146,8 @@ private:
     std::size_t maximum_size_;
     // The current size of the arena
     std::size_t current_size_{};
+    // Address-ordered set of the superblocks, as received from upstream
+    std::set<block> superblocks_;
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
-- 
2.43.0


From 9578e3a6fb3d1c199ce90ba6baeef8b886dbd606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 30/31] fix: released arena space is used again for large
 requests too

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index f0210ce..e5d55c1 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -216,11 +216,9 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     std::size_t size) {
 
-    if (size < minimum_superblock_size) {
-        auto const b = first_fit(this->free_blocks_, size);
-        if (b.is_valid()) {
-            return b;
-        }
+    auto const b = first_fit(this->free_blocks_, size);
+    if (b.is_valid()) {
+        return b;
     }
 
     auto const superblock = expand_arena(size);
-- 
2.43.0


From ef1dac9a2a8583bdde7fe5729847f82095781437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:26 +0000
Subject: [PATCH 31/31] fix: binary page resource refuses requests of more than
 2^63 bytes

---
 .../details/binary_page_memory_resource_impl.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..0416943 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +29,14 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * Requests that no page could ever fit can not be rounded up.
+     */
+    if (size > (static_cast<std::size_t>(1UL)
+                << (std::numeric_limits<std::size_t>::digits - 1))) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0

