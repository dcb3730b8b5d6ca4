From 444087a9b94f70bc95f83323eeba00bd0f9d4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 01/54] fix: qualify range-v3 names so array_view.hpp and
 linked_list.hpp compile after array.hpp

Inside namespace xme the unqualified 'ranges::' finds xme::ranges as soon as
xme/ranges/*.hpp is included, so container.hpp and spsc_queue.hpp never compiled.
---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 89255677b44223a2f605f87cdfcb6d9eaa615ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 02/54] fix: uninitialized_copy_a destroys what it constructed
 when a copy throws

The rollback destroyed [in_first, out_curr), mixing input and output: it
destroyed source elements, and did not compile when the iterator types differ.
---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From 48e87e69aa64566ccc29f66bc94e37d42447353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 03/54] fix: Array constructs the elements it relocates and
 destroys the old ones

grow_storage and shrink_storage move-assigned into uninitialized memory and
never destroyed the moved-from elements.
---
 include/xme/container/array.hpp | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..fba0011 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -282,11 +282,33 @@ public:
     }
 
 private:
+    //! Move constructs [first, last) into the uninitialized memory starting at dest.
+    //! Whatever was constructed is destroyed if a constructor throws.
+    constexpr auto uninitialized_move(pointer first, pointer last, pointer dest) -> pointer {
+        pointer curr = dest;
+        try {
+            for(; first != last; ++first, (void)++curr)
+                alloc_traits::construct(m_allocator, curr, std::move(*first));
+        }
+        catch(...) {
+            ranges::destroy_a(dest, curr, m_allocator);
+            throw;
+        }
+        return curr;
+    }
+
     constexpr void grow_storage(size_type n) {
         const auto old_size = this->size();
         pointer new_begin   = m_allocator.allocate(n);
 
-        std::ranges::move(*this, new_begin);
+        try {
+            uninitialized_move(m_data.begin, m_data.end, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
         if(m_data.begin)
             m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
@@ -298,8 +320,14 @@ private:
         size_type elements_to_move = std::min(this->size(), n);
         pointer new_begin          = m_allocator.allocate(n);
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
+        try {
+            uninitialized_move(m_data.begin, m_data.begin + elements_to_move, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
         m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
         m_data.end         = new_begin + elements_to_move;
-- 
2.43.0


From 5fad9948f2ad2883f51cce885dbcbe4027911ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 04/54] fix: Array insertion that reallocates constructs and
 destroys its elements

realloc_insert move-assigned into uninitialized memory, never destroyed the
old elements, and destroyed an element it had failed to construct.
---
 include/xme/container/array.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index fba0011..d28c282 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -340,18 +340,24 @@ private:
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        pointer new_pos                 = new_start + elements_before;
+        pointer constructed_end         = new_pos;
         try {
-            alloc_traits::construct(
-              m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            // Must be constructed first, args may refer to an element of this array
+            alloc_traits::construct(m_allocator, new_pos, std::forward<Args>(args)...);
+            ++constructed_end;
+            constructed_end =
+              uninitialized_move(m_data.begin + elements_before, m_data.end, constructed_end);
+            uninitialized_move(m_data.begin, m_data.begin + elements_before, new_start);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(new_pos, constructed_end, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_start;
         m_data.end         = new_start + (curr_size + 1);
         m_data.storage_end = new_start + new_size;
-- 
2.43.0


From 9fd4018068ce184c5b67c8bf1318b05685c55448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 05/54] fix: Array insertion of one of its own elements

push_back and emplace_back freed the old storage before they read the
argument; insert shifted the elements before it read the argument.
---
 include/xme/container/array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index d28c282..042562e 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,11 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        T tmp(std::forward<U>(value));  // value may be an element of this array
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -253,7 +254,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 5696a943a05858d2f64dac3511e26e8969af2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 06/54] fix: Array range insertion constructs and destroys its
 elements

The reallocating path move-assigned into uninitialized memory and copied from
const iterators; the in-place path moved into uninitialized memory past the
end and constructed the new elements over live ones.
---
 include/xme/container/array.hpp | 37 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 042562e..a20f806 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,6 +2,7 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
@@ -184,26 +185,32 @@ public:
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
             Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
-
-            // Must be constructed first, so if it throws we don't break the original
-            // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
+            size_type elements_before = p - m_data.begin;
+            pointer new_pos           = tmp.m_data.begin + elements_before;
+            pointer constructed_end   = new_pos;
+
+            try {
+                // Must be constructed first, so if it throws we don't break the original
+                // array
+                for(; first != last; ++first, (void)++constructed_end)
+                    alloc_traits::construct(m_allocator, constructed_end, *first);
+
+                constructed_end = uninitialized_move(p, m_data.end, constructed_end);
+                uninitialized_move(m_data.begin, p, tmp.m_data.begin);
+            }
+            catch(...) {
+                ranges::destroy_a(new_pos, constructed_end, m_allocator);
+                throw;
+            }
+            tmp.m_data.end = constructed_end;
             std::ranges::swap(m_data, tmp.m_data);
 
             return begin() + elements_before;
         }
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
+        const pointer old_end = m_data.end;
+        push_back(first, last);
+        std::rotate(p, old_end, m_data.end);
         return p;
     }
 
-- 
2.43.0


From 693cfecf25632839d6d5759140d6b3af66a2d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 07/54] fix: Array::erase destroys the elements left over at
 the end

It destroyed the erased elements, then assigned into the destroyed objects,
and never destroyed the moved-from tail.
---
 include/xme/container/array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index a20f806..01d77ca 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -272,9 +272,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -283,9 +283,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
-        m_data.end -= elements;
+        if(elements > 0) {
+            pointer new_end = std::move(p + elements, m_data.end, p);
+            ranges::destroy_n_a(new_end, elements, m_allocator);
+            m_data.end = new_end;
+        }
         return p;
     }
 
-- 
2.43.0


From f7deb64e7139f227acdd159c6f81161dccc8f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 08/54] fix: LinkedList constructors free their nodes when an
 element throws

They did not delegate, so no destructor ran for the nodes already created.
---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From fc949afda5e5a6d82f1efa22b79e7dfac3c67511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 09/54] fix: copying a Delegate compiles and may report a
 failed copy

The manager took its source by non-const reference, so neither copy could be
instantiated; copy assignment was noexcept although the target's copy may throw.
---
 include/xme/core/functional/delegate.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..eaef281 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -149,7 +149,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -197,8 +197,8 @@ public:
 
 private:
     AnyData m_storage{};
-    R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    R (*m_callable)(const AnyData&, Args...)                = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From dff25976666068a4383c826573188eb792b51769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 10/54] fix: Delegate keeps only trivially copyable functors in
 its local storage

Moving and swapping a Delegate copies the bytes of the storage, which is wrong
for functors that own resources or refer to themselves.
---
 include/xme/core/functional/delegate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index eaef281..461f085 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,8 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;  // moving a Delegate copies the bytes
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 5416a786b6e5b3052f8b6ed381aaa5a0662addcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 11/54] fix: Delegate::handle finds functors that are not
 stored locally

It returned the address of the pointer to the functor.
---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 461f085..4520dbf 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -191,7 +191,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From 4f620d87f31d7d26ad7cb68b9bc70d26cda25035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 12/54] fix: Delegate accepts lvalue functors

The functor type was not decayed, so an lvalue asked for storage of a reference.
Assignment from a functor was noexcept although storing it may throw.
---
 include/xme/core/functional/delegate.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 4520dbf..2fe9d7d 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -135,11 +135,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
@@ -170,7 +170,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From c5dde260881a376e827db9610ddb0a3fe8850852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 13/54] fix: ReverseIterator orders like the reversed sequence

operator<=> compared the underlying positions forwards, so begin > end; the
comparison with another ReverseIterator type also dereferenced the iterators.
---
 include/xme/core/iterators/reverse_iterator.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..335a4ee 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -121,18 +121,20 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
     template<typename U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <=> m_current;
     }
 
 private:
-- 
2.43.0


From 64e2ff206cf1d150c6ce0db477d664d0111d69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 14/54] fix: find reads unaligned data with unaligned loads

The data of a range of T is only aligned for T, not for a vector register.
---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From d5a347e2fdad5e7f4126cc6a069b54e951a96855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 15/54] fix: find compares by bytes only the types whose
 equality is bytewise

Blocks of floating point numbers and of small structs were compared by bytes
(-0.0 was not found as 0.0, NaN was found), other sizes did not compile, and
8 byte elements need SSE4.1.
---
 include/xme/core/algorithm/find.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..b4b68b3 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -9,6 +9,13 @@
 
 namespace xme {
 namespace detail {
+//! Types that are equal exactly when their bytes are equal, of a size find_simd can compare
+template<typename T>
+inline constexpr bool is_simd_findable =
+  (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
+  && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
+      || (sizeof(T) == 8 && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE41)));
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
@@ -74,9 +81,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    if constexpr(::ranges::contiguous_iterator<I> && detail::is_simd_findable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(compare + readable_bytes <= s) {
-- 
2.43.0


From eafa192807c976b1f6d777c7e92441a60ee07e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 16/54] fix: reverse uses the SIMD path only for the elements
 it handles

With SSE3 the blocks of 2 byte elements were not reversed, with AVX2 only 1
byte elements compiled, and _mm_shuffle_epi8 needs SSSE3.
---
 include/xme/core/algorithm/reverse.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..1a7afc5 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -28,7 +28,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -46,11 +45,11 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+                 && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From b760efe1a8e42057451d5c326f7b85a1a5c9fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 17/54] fix: perspective with XME_MATH_CLIP_LH is left handed

It called perspective_rh with near and far swapped.
---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..e539afe 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From c85a727c2ffb25796c7c810dcee868880bf89e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 18/54] fix: off-center perspective divides by the width of the
 frustum

The horizontal offset was divided by right - near.
---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index e539afe..7deae05 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From 810baf5fea772ad940419a7fad65d3b55fa021cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 19/54] fix: ortho scales depth and translates by the last
 column

Both functions overwrote the vertical scale with the depth scale and put the
translation in the third column.
---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 7deae05..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 8fd4503161d58e4c65c32a8213a25347b5c9f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 20/54] fix: SharedLibrary closes each library once

close() kept the handle, so the destructor closed it again and is_open() stayed
true; opening a second library leaked the first; closing a closed library
passed a null handle to dlclose.
---
 include/xme/hal/shared_library.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..64cd3ac 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     constexpr void open(std::string_view lib_name) {
+        close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
@@ -47,7 +48,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From eb361b56f18c01bf05c804d3e5ca73d04afdd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 21/54] fix: library, symbol and environment names need not be
 NUL terminated

The data() of a string_view was handed to C functions, which read past its end.
---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 include/xme/hal/shared_library.hpp | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 64cd3ac..e46d0d5 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include "platform_macros.hpp"
 
@@ -41,7 +42,7 @@ public:
         close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -59,7 +60,7 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 81293c8ba00646e3fa262e71c956b6bc4bd864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 22/54] fix: SharedLibrary::proc_address returns the type it is
 asked for

It returned void*, so asking for a function pointer did not compile. Making the
symbol name NUL terminated may throw, so it is not noexcept.
---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index e46d0d5..90fee0f 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -57,7 +57,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         return (T)dlsym(m_library, std::string(function).c_str());
-- 
2.43.0


From 63b9921ac09cfca382f1d6839f24de563808580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 23/54] fix: ArrayView::subview rejects a count that overflows
 with the offset

---
 include/xme/container/array_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 050049a..0c2eb65 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -168,7 +168,7 @@ public:
     [[nodiscard]]
     constexpr auto subview(size_type offset,
                            size_type count) const noexcept -> ArrayView<T, dynamic_size> {
-        assert(count + offset <= size());
+        assert(offset <= size() && count <= size() - offset);
         return ArrayView<T, dynamic_size>(m_view + offset, count);
     }
 
-- 
2.43.0


From 41dcef283909ffc678626c48fafd5663693f2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 24/54] fix: Pair assignment is noexcept only when assigning
 its members is

It was noexcept when swapping was, so a throwing copy ended the program.
---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..26f4f1e 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(std::is_nothrow_assignable_v<T&, decltype(get<0>(std::forward<P>(p)))>
+               && std::is_nothrow_assignable_v<U&, decltype(get<1>(std::forward<P>(p)))>) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From 880a28418a6446b84b87f399a57bba1004c1a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 25/54] fix: lerp does not wrap around for unsigned percentages
 above 1

---
 include/xme/math/vectors/functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..c69c60d 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -17,7 +17,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (1 - static_cast<T>(percent));
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +32,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (1 - static_cast<T>(percent[i]));
         }
     }
     return result;
-- 
2.43.0


From 5128f93711720aa895932ac6f1829f0423ba69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 26/54] fix: tuple_cat of tuples that hold std types

forward_as_tuple was found in std as well by argument dependent lookup.
---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 8c58d2f50bf6b0af7595f5cb293b0cfb26c8aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 27/54] fix: get on an rvalue Tuple or Pair works for rvalue
 reference elements

A reference member is an lvalue even in an rvalue object, so tuple_cat of
temporaries did not compile.
---
 include/xme/container/pair.hpp   | 4 ++--
 private/container/tuple_base.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 26f4f1e..c040be7 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -44,7 +44,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -59,7 +59,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 #endif
 
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From 4c91bea12030726c80e637669c542277b2157ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 28/54] fix: fixed size SPSCQueue and LinkedList hold types
 that are not default constructible

Their storage, AlignedData, could only be created empty for default constructible
types, although creating it empty constructs nothing.
---
 include/xme/container/aligned_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..1c4d2eb 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -22,9 +22,7 @@ public:
     using pointer         = T*;
     using const_pointer   = const T*;
 
-    constexpr AlignedData() noexcept
-        requires std::default_initializable<T>
-    = default;
+    constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
     constexpr AlignedData(Args&&... args) noexcept {
-- 
2.43.0


From e43da296e02416f2aed5ac013b8817db8ffe44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 29/54] fix: Array range insertion allocates from the array's
 own allocator

The new storage came from a default constructed allocator and was later returned
to the array's allocator, and the old storage the other way around.
---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 01d77ca..e664246 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -184,7 +184,7 @@ public:
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
+            Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
             size_type elements_before = p - m_data.begin;
             pointer new_pos           = tmp.m_data.begin + elements_before;
             pointer constructed_end   = new_pos;
-- 
2.43.0


From 1e6e904ee7f4feb83508d9810f875d6836894ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 30/54] fix: Matrix can be made from columns and 4x4 matrices
 of another element type

---
 include/xme/math/matrices/matrix4x4.hpp | 5 +++--
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..1360241 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,11 +61,12 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept :
+      m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..8366e5a 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From ee09dede6086a4e28bba18657a66ec2197762694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 31/54] fix: rotate about an axis of integers does not truncate
 1 - cos(angle)

---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..7f241dd 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>(n) * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From f9c32fdaef66e9fa414bcebabb89faf5696fe285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 32/54] fix: assigning an initializer list to an Array keeps
 the allocator the Array was given

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index e664246..e961808 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -93,7 +93,7 @@ public:
     }
 
     constexpr auto operator=(std::initializer_list<T> list) -> Array& {
-        Array(list).swap(*this);
+        Array(list, m_allocator).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 0c4296b0e52119685dafe75fdf154e3ca903d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 33/54] fix: Array lost the elements of single pass ranges by
 counting them first

---
 include/xme/container/array.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index e961808..9524385 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -63,6 +63,12 @@ public:
       Array(list.begin(), list.end(), alloc) {}
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
+      Array(alloc) {
+        push_back(std::move(first), std::move(last));
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
       Array(std::ranges::distance(first, last), alloc) {
         auto&& [_, out] = xme::ranges::uninitialized_copy_a(
@@ -181,7 +187,16 @@ public:
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
-        auto p             = const_cast<pointer>(pos.operator->());
+        auto p = const_cast<pointer>(pos.operator->());
+        if constexpr(!std::forward_iterator<Iter>) {
+            // The elements can't be counted without consuming them
+            const size_type elements_before = p - m_data.begin;
+            const size_type old_size        = this->size();
+            push_back(std::move(first), std::move(last));
+            std::rotate(
+              m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
+            return begin() + elements_before;
+        }
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
             Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
@@ -233,14 +248,11 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
-        size_type new_capacity = this->size() + std::ranges::distance(first, last);
-        if(new_capacity > capacity()) {
-            grow_storage(new_capacity);
-        }
-        for(; first != last; ++first) {
-            alloc_traits::construct(m_allocator, m_data.end, *first);
-            ++m_data.end;
-        }
+        // The elements of a single pass range can't be counted without consuming them
+        if constexpr(std::forward_iterator<Iter> || std::sized_sentinel_for<Sent, Iter>)
+            reserve(this->size() + std::ranges::distance(first, last));
+        for(; first != last; ++first)
+            emplace_back(*first);
     }
 
     //! Pushes a range [begin(range), end(range)) to the end of the array.
-- 
2.43.0


From eb3fc8e5128545ca40b35e18b635bb8d39ee0a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 34/54] fix: a Heap could not be made from a range of unknown
 size

---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From 4823433fbc9a06fe136e7a3d278f2c72b4954fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 35/54] fix: a Tuple can be the first element of a Tuple

---
 include/xme/container/tuple.hpp  |  3 ++-
 private/container/tuple_base.hpp | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 36a4707..92c9313 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -22,7 +22,8 @@ public:
 
     template<typename U>
         requires(CTupleLike<U> || std::is_aggregate_v<std::remove_reference_t<U>>)
-                && (!std::same_as<Tuple, U>) && requires(T... args) { U{args...}; }
+                && (!std::same_as<Tuple, U>) && detail::is_tuple_convertible<U, T...>
+                && requires(T... args) { U{args...}; }
     constexpr operator U() const {
         auto convert = []<typename Tup, std::size_t... I>(Tup&& tup, std::index_sequence<I...>) {
             return U{get<I>(std::forward<Tup>(tup))...};
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..a8bd719 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -5,6 +5,11 @@
 #include <xme/setup.hpp>
 #include <xme/core/utility/forward_like.hpp>
 
+namespace xme {
+template<typename... T>
+struct Tuple;
+}  // namespace xme
+
 namespace xme::detail {
 template<typename... T>
 struct TypeList {};
@@ -60,6 +65,30 @@ struct TypeMap : TupElem... {
     XME_CONSTEXPR20 bool operator==(const TypeMap&) const  = default;
 };
 
+template<typename Us, typename... T>
+inline constexpr bool is_convertible_each = false;
+
+template<typename... U, typename... T>
+    requires(sizeof...(U) == sizeof...(T))
+inline constexpr bool is_convertible_each<TypeList<U...>, T...> =
+  (std::is_convertible_v<const T&, U> && ...);
+
+//! A Tuple<T...> converts to another Tuple, or to the base that initializes one, only element by
+//! element: it is not a Tuple that starts with an element that is a Tuple<T...>.
+template<typename U, typename... T>
+inline constexpr bool is_tuple_convertible = true;
+
+template<typename... U, typename... T>
+inline constexpr bool is_tuple_convertible<Tuple<U...>, T...> =
+  is_convertible_each<TypeList<U...>, T...>;
+
+template<std::size_t... I, typename... U, typename... T>
+inline constexpr bool is_tuple_convertible<TypeMap<TupleElement<I, U>...>, T...> =
+  is_convertible_each<TypeList<U...>, T...>;
+
+template<std::size_t I, typename U, typename... T>
+inline constexpr bool is_tuple_convertible<TupleElement<I, U>, T...> = false;
+
 template<typename IndexSequence, typename... T>
 struct GetTupleBase;
 
-- 
2.43.0


From 4b9d91a5fbf4171d79faaf8f1cf5097034afb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 36/54] fix: find and reverse accept any sentinel and constant
 evaluation with SIMD enabled

---
 include/xme/core/algorithm/find.hpp    | 8 ++++++--
 include/xme/core/algorithm/reverse.hpp | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index b4b68b3..74198cc 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -81,11 +81,15 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && detail::is_simd_findable<T>
+    if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
+                 && detail::is_simd_findable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
+        if(std::is_constant_evaluated())
+            return ::ranges::find(i, s, value);
+
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(s - compare >= std::iter_difference_t<I>(readable_bytes)) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 1a7afc5..8162031 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -48,8 +48,11 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
                  && std::is_trivially_copyable_v<T>) {
+        if(std::is_constant_evaluated())
+            return ::ranges::reverse(i, s);
+
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 5f5e444372e23ea0b8f1932669ea197257f1f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 37/54] fix: find honours the equality an enumeration defines

---
 include/xme/core/algorithm/find.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 74198cc..b74b890 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -12,7 +12,8 @@ namespace detail {
 //! Types that are equal exactly when their bytes are equal, of a size find_simd can compare
 template<typename T>
 inline constexpr bool is_simd_findable =
-  (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
+  (std::is_integral_v<T> || std::is_pointer_v<T>
+   || (std::is_enum_v<T> && !requires(const T& t) { operator==(t, t); }))
   && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
       || (sizeof(T) == 8 && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE41)));
 
-- 
2.43.0


From 7c069e58f8f7761d66a451d30b05cb8d669c488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 38/54] fix: find works with contiguous iterators that have no
 operator-> with SIMD enabled

---
 include/xme/core/algorithm/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index b74b890..6a20c3a 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -91,7 +91,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(s - compare >= std::iter_difference_t<I>(readable_bytes)) {
-            const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
+            const auto index = detail::find_simd<sizeof(T)>(std::addressof(*compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
             compare += readable_bytes;
-- 
2.43.0


From 36416f04d9eb9ac316bf2bc18d4f6e7d78bf0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 39/54] fix: reverse works with contiguous iterators that have
 no operator-> with SIMD enabled

---
 include/xme/core/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 8162031..5dbb075 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -57,7 +57,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
         while(count--) {
-            detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(s));
+            detail::reverse_simd<sizeof(T)>(std::addressof(*i), std::addressof(*i) + (s - i));
             i += readable_bytes;
             s -= readable_bytes;
         }
-- 
2.43.0


From 958959f8de45ba20ae2c200575cf957a8d6ec758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 40/54] fix: ConstIterator works over input, move-only and
 proxy iterators and converts between bases

---
 include/xme/core/iterators/const_iterator.hpp | 44 ++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..f7375b7 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -7,6 +7,16 @@
 #include <xme/core/concepts/different_from.hpp>
 
 namespace xme {
+template<std::input_iterator It>
+class ConstIterator;
+
+namespace detail {
+template<typename T>
+inline constexpr bool is_const_iterator = false;
+template<typename It>
+inline constexpr bool is_const_iterator<ConstIterator<It>> = true;
+}  // namespace detail
+
 template<std::input_iterator It>
 class ConstIterator {
 private:
@@ -26,25 +36,37 @@ private:
             return std::input_iterator_tag{};
     }
 
+    static constexpr auto get_iterator_category() noexcept {
+        if constexpr(std::forward_iterator<It>)
+            return typename traits::iterator_category{};
+    }
+
 public:
     using difference_type = std::iter_difference_t<It>;
     using value_type      = std::iter_value_t<It>;
-    using iterator_category =
-      std::conditional_t<std::forward_iterator<It>, typename traits::iterator_category, void>;
-    using iterator_concept = decltype(get_iterator_concept());
+    using iterator_category = decltype(get_iterator_category());
+    using iterator_concept  = decltype(get_iterator_concept());
+
+    template<std::input_iterator>
+    friend class ConstIterator;
 
-    constexpr ConstIterator() noexcept = default;
+    constexpr ConstIterator() noexcept
+        requires std::default_initializable<It>
+    = default;
 
-    constexpr ConstIterator(It it) noexcept : m_current(it) {}
+    constexpr ConstIterator(It it) noexcept : m_current(std::move(it)) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept :
+      m_current(std::move(other.m_current)) {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
     constexpr ConstIterator(T&& it) noexcept : m_current(std::forward<T>(it)) {}
 
-    constexpr auto operator->() const noexcept -> const auto* {
+    constexpr auto operator->() const noexcept -> const auto*
+        requires std::is_lvalue_reference_v<std::iter_reference_t<It>>
+    {
         if constexpr(std::contiguous_iterator<It>)
             return std::to_address(m_current);
         else
@@ -66,6 +88,8 @@ public:
         return tmp;
     }
 
+    constexpr void operator++(int) noexcept { ++m_current; }
+
     constexpr auto operator--() noexcept -> ConstIterator&
         requires std::bidirectional_iterator<It>
     {
@@ -105,8 +129,8 @@ public:
         return m_current - sent;
     }
 
-    template<CDifferentFrom<ConstIterator> Sent>
-        requires std::sized_sentinel_for<Sent, It>
+    template<typename Sent>
+        requires(!detail::is_const_iterator<Sent>) && std::sized_sentinel_for<Sent, It>
     friend constexpr auto operator-(const Sent& sent,
                                     const ConstIterator& it) noexcept -> difference_type {
         return sent - it.m_current;
@@ -205,7 +229,7 @@ XME_INLINE constexpr auto make_const_iterator(It it) noexcept {
     if constexpr(CConstantIterator<It>)
         return it;
     else
-        return ConstIterator<It>(it);
+        return ConstIterator<It>(std::move(it));
 }
 
 template<std::semiregular It>
-- 
2.43.0


From a0060b0c857c5ed69919b8d04e92fe8753775c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 41/54] fix: ReverseIterator over iterators without a three-way
 comparison is ordered

---
 .../xme/core/iterators/reverse_iterator.hpp   | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index 335a4ee..8c84150 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -133,10 +133,35 @@ public:
     }
 
     template<typename U>
+        requires(std::three_way_comparable_with<U, It>)
     constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
         return rhs.m_current <=> m_current;
     }
 
+    template<typename U>
+        requires(std::totally_ordered_with<U, It> && !std::three_way_comparable_with<U, It>)
+    constexpr bool operator<(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current < m_current;
+    }
+
+    template<typename U>
+        requires(std::totally_ordered_with<U, It> && !std::three_way_comparable_with<U, It>)
+    constexpr bool operator>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current > m_current;
+    }
+
+    template<typename U>
+        requires(std::totally_ordered_with<U, It> && !std::three_way_comparable_with<U, It>)
+    constexpr bool operator<=(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <= m_current;
+    }
+
+    template<typename U>
+        requires(std::totally_ordered_with<U, It> && !std::three_way_comparable_with<U, It>)
+    constexpr bool operator>=(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current >= m_current;
+    }
+
 private:
     It m_current;
 };
-- 
2.43.0


From e0286556695fddd2eebad267e2cac4b6fcce2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 42/54] fix: the difference of an Array iterator and a const
 iterator compiles in either order

---
 include/xme/container/array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 9524385..3e36f11 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -463,8 +463,9 @@ public:
         return n - it.m_cursor;
     }
 
-    constexpr auto operator-(const Iterator& it) const noexcept -> difference_type {
-        return m_cursor - it.m_cursor;
+    friend constexpr auto operator-(const Iterator& lhs, const Iterator& rhs) noexcept
+      -> difference_type {
+        return lhs.m_cursor - rhs.m_cursor;
     }
 
     constexpr auto operator+=(difference_type n) noexcept -> Iterator& {
-- 
2.43.0


From 69acc7b132e9994f310a8fd3537ed9b310fb7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 43/54] fix: let exceptions from copying a binder reach the
 caller

---
 include/xme/core/functional/bind.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..95a9df6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,9 +12,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
@@ -22,9 +22,9 @@ public:
                && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From 8015f627e288226885c37940ccfd3bdd1b6680f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 44/54] fix: let exceptions from storing bound arguments reach
 the caller of bind_front

---
 include/xme/core/functional/bind.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index 95a9df6..aef48a6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -19,7 +19,7 @@ public:
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
     constexpr auto operator=(const BindFront&) -> BindFront& = default;
-- 
2.43.0


From 83433b9de1dc67b40c0d524d4d897360bc52b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 45/54] fix: let an exception from storing the function of a
 ScopedDelegate reach the caller

---
 include/xme/core/functional/scoped_delegate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/scoped_delegate.hpp b/include/xme/core/functional/scoped_delegate.hpp
index 0060a19..ea9d800 100644
--- a/include/xme/core/functional/scoped_delegate.hpp
+++ b/include/xme/core/functional/scoped_delegate.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <concepts>
+#include <type_traits>
 #include <utility>
 
 namespace xme {
@@ -8,9 +10,10 @@ namespace xme {
 template<std::invocable F>
 class ScopedDelegate {
 public:
-    constexpr ScopedDelegate(F& func) noexcept : m_callable(func) {}
+    constexpr ScopedDelegate(F& func) noexcept(std::is_nothrow_constructible_v<F, F&>) : m_callable(func) {}
 
-    constexpr ScopedDelegate(F&& func) noexcept : m_callable(std::move(func)) {}
+    constexpr ScopedDelegate(F&& func) noexcept(std::is_nothrow_move_constructible_v<F>) :
+      m_callable(std::move(func)) {}
 
     constexpr ~ScopedDelegate() noexcept { m_callable(); }
 
-- 
2.43.0


From c22e005b45d33b61dd89486196aadee2c87030b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 46/54] fix: compile the 128-bit overloads of to_unsigned (the
 guarding macro was misspelt)

---
 include/xme/core/utility/to_unsigned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..74f1b01 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,7 +8,7 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
+#ifdef __SIZEOF_INT128__
 XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
     return static_cast<unsigned __int128>(n);
 }
-- 
2.43.0


From 48d845a0668a9c76b0f0e02e46eb221e50c5bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 47/54] fix: IContainer::back works for ranges that end at a
 sentinel

---
 include/xme/container/icontainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/icontainer.hpp b/include/xme/container/icontainer.hpp
index 29d1ad0..24060c8 100644
--- a/include/xme/container/icontainer.hpp
+++ b/include/xme/container/icontainer.hpp
@@ -93,14 +93,14 @@ public:
     constexpr auto back() noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 
     [[nodiscard]]
     constexpr auto back() const noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<const D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 };
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From 07723610dd010cef1a4eac82d189f2d0798066c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 48/54] fix: quaternion.hpp includes what it uses

---
 include/xme/math/quaternion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index d736cbb..eba42c3 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <compare>
+#include <cstddef>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/concepts.hpp>
 
-- 
2.43.0


From 064504c51588bbf8980150979eae6ad72060c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 49/54] fix: detect the standard library (its macro was
 misspelt, and absent without another header)

---
 include/xme/hal/std_detection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/std_detection.hpp b/include/xme/hal/std_detection.hpp
index 1ef2409..9f0c190 100644
--- a/include/xme/hal/std_detection.hpp
+++ b/include/xme/hal/std_detection.hpp
@@ -1,6 +1,7 @@
 #pragma once
+#include <version>
 
-#if defined(__LIBCPP_VERSION)
+#if defined(_LIBCPP_VERSION)
 #    define XME_LIBSTD_CLANG
 #elif defined(__GLIBCXX__)
 #    define XME_LIBSTD_GCC
-- 
2.43.0


From 380cb0fb9421094344ed1635b13070d3bff85f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 50/54] fix: Array::insert destroys the element it just made
 when incrementing the iterator throws

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 3e36f11..a2504ef 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -207,7 +207,7 @@ public:
             try {
                 // Must be constructed first, so if it throws we don't break the original
                 // array
-                for(; first != last; ++first, (void)++constructed_end)
+                for(; first != last; ++constructed_end, (void)++first)
                     alloc_traits::construct(m_allocator, constructed_end, *first);
 
                 constructed_end = uninitialized_move(p, m_data.end, constructed_end);
-- 
2.43.0


From 36879da7a86c896912570c2addd5c894e07f2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 51/54] fix: calling a const rvalue binder is noexcept only if
 calling with const lvalues is

---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index aef48a6..bef7557 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -47,7 +47,7 @@ public:
 
     template<typename... CallArgs>
     constexpr auto operator()(CallArgs&&... args) const&& noexcept(
-      std::is_nothrow_invocable_v<const F, const Args..., CallArgs...>) -> decltype(auto) {
+      std::is_nothrow_invocable_v<const F, const Args&..., CallArgs...>) -> decltype(auto) {
         return BindFront::call(std::move(*this), bound_indices{}, std::forward<CallArgs>(args)...);
     }
 
@@ -109,7 +109,7 @@ public:
 
     template<typename... CallArgs>
     constexpr auto operator()(CallArgs&&... args) const&& noexcept(
-      std::is_nothrow_invocable_v<const F, CallArgs..., const Args...>) -> decltype(auto) {
+      std::is_nothrow_invocable_v<const F, CallArgs..., const Args&...>) -> decltype(auto) {
         return BindBack::call(std::move(*this), bound_indices{}, std::forward<CallArgs>(args)...);
     }
 
-- 
2.43.0


From c5a5a40e686c92929bcb0a8892e5792bb0399c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 52/54] fix: Vector and Quaternion operator[] work in constant
 expressions

---
 include/xme/math/quaternion.hpp      | 5 +++++
 include/xme/math/vectors/vector2.hpp | 5 +++++
 include/xme/math/vectors/vector3.hpp | 5 +++++
 include/xme/math/vectors/vector4.hpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index eba42c3..2941f88 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <compare>
 #include <cstddef>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/concepts.hpp>
 
@@ -38,11 +39,15 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
+        if(std::is_constant_evaluated())
+            return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
         return (&w)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
+        if(std::is_constant_evaluated())
+            return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
         return (&w)[i];
     }
 
diff --git a/include/xme/math/vectors/vector2.hpp b/include/xme/math/vectors/vector2.hpp
index e6003b5..651d0e2 100644
--- a/include/xme/math/vectors/vector2.hpp
+++ b/include/xme/math/vectors/vector2.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <cassert>
 #include <cmath>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/arithmetic.hpp>
 
@@ -76,12 +77,16 @@ struct Vector<T, 2> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 2 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : y;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 2 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : y;
         return (&x)[i];
     }
 
diff --git a/include/xme/math/vectors/vector3.hpp b/include/xme/math/vectors/vector3.hpp
index 3bb85fe..f4362e2 100644
--- a/include/xme/math/vectors/vector3.hpp
+++ b/include/xme/math/vectors/vector3.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <cassert>
 #include <cmath>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/arithmetic.hpp>
 
@@ -89,12 +90,16 @@ struct Vector<T, 3> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 3 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : z;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 3 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : z;
         return (&x)[i];
     }
 
diff --git a/include/xme/math/vectors/vector4.hpp b/include/xme/math/vectors/vector4.hpp
index 989004c..35d8cbd 100644
--- a/include/xme/math/vectors/vector4.hpp
+++ b/include/xme/math/vectors/vector4.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <cassert>
 #include <cmath>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/arithmetic.hpp>
 
@@ -106,12 +107,16 @@ struct Vector<T, 4> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 4 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 4 && "Index out of bound");
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
         return (&x)[i];
     }
 
-- 
2.43.0


From 47d03d2ace836a9916855c8e60f841fe9ac41a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 53/54] fix: the value type of Array's constant iterators is
 not const

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index a2504ef..d57d4d8 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -416,7 +416,7 @@ template<bool Const>
 class Array<T, Alloc>::Iterator {
 public:
     using difference_type   = std::ptrdiff_t;
-    using value_type        = std::conditional_t<Const, const T, T>;
+    using value_type        = T;
     using reference         = std::conditional_t<Const, const T&, T&>;
     using pointer           = std::conditional_t<Const, const T*, T*>;
     using iterator_category = std::random_access_iterator_tag;
-- 
2.43.0


From cfa8845fbf9acbcfa24c1f6b0ddafb1c65ded24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 54/54] fix: a LinkedList can be copied and moved implicitly,
 and thereby returned, passed and swapped

---
 include/xme/container/linked_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index a443b28..1a2596c 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -67,7 +67,7 @@ public:
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
+    constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
@@ -79,7 +79,7 @@ public:
     }
 
     //! Constructs a LinkedList by transfering elements from other
-    explicit constexpr LinkedList(LinkedList&& other) noexcept {
+    constexpr LinkedList(LinkedList&& other) noexcept {
         m_head.next       = other.m_head.next;
         other.m_head.next = nullptr;
     }
-- 
2.43.0

