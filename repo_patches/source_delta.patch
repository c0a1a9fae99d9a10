From 535b5c73900f33c428814c4f8379dcdca5ebc165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 01/42] fix: cascading kept a new instance for every request
 that could not be met

A request that even a fresh instance refuses pushed that instance to the front
of the list, where it stayed (older, empty instances are only removed by
deallocate), so every refused request leaked one instance until destruction and
hid the remaining space of the previous instance. The same held for an empty
main instance replaced by a new one. The debug assertion in release() then
fired although all memory had been deallocated.
---
 include/ktl/allocators/cascading.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..3d4e24f 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -110,12 +110,27 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
+				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-				m_Node->Next = next;
+				p = next->Allocator.allocate(n);
+
+				// Don't keep the new allocator if it can't allocate it either
+				if (p == nullptr)
+				{
+					detail::aligned_delete(next);
+					return nullptr;
+				}
+
+				// Only the main allocator may be kept without any allocations
+				if (m_Node->Allocations == 0)
+				{
+					next->Next = m_Node->Next;
+					detail::aligned_delete(m_Node);
+				}
+				else
+					next->Next = m_Node;
 
-				p = m_Node->Allocator.allocate(n);
+				m_Node = next;
 			}
 
 			if (p)
-- 
2.43.0


From 15d7c597503478bd9fea3d70d75a48323cf21d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 02/42] fix: cascading::max_size() dereferenced a null pointer
 before the first allocation

Standard containers ask for max_size() before they allocate, so a container
over a typed cascading allocator whose instances define max_size() crashed.
---
 include/ktl/allocators/cascading.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 3d4e24f..b8c468f 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -251,7 +251,17 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Node->Allocator.max_size();
+			if (m_Node)
+				return m_Node->Allocator.max_size();
+
+			// Before the first allocation, ask the instance that would be created for it
+			node* first = detail::aligned_new<node>(detail::ALIGNMENT);
+
+			size_type size = first->Allocator.max_size();
+
+			detail::aligned_delete(first);
+
+			return size;
 		}
 
 		/**
-- 
2.43.0


From 51808f09c6cbdfef4181888d43513900e3b38e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 03/42] fix: overflow counted refused allocations as leaked
 memory

---
 include/ktl/allocators/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..f4c687d 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,14 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
-- 
2.43.0


From e19b862c5b4767ab1fc29ce0ec8636f5359e08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 04/42] fix: linear_allocator and stack_allocator gave out an
 address they don't own

A request for 0 bytes to a full allocator returned the address one past its
buffer, for which owns() is false, so fallback and cascading could not return
the block to where it came from.
---
 include/ktl/allocators/linear_allocator.h | 5 ++++-
 include/ktl/allocators/stack_allocator.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..6df8400 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -76,7 +76,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Free - m_Data) + totalSize) > Size)
+			size_t used = size_t(m_Free - m_Data);
+
+			// A full allocator can't even give out 0 bytes, since it wouldn't own the address
+			if (used >= Size || (used + totalSize) > Size)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..b4a1dc5 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -64,7 +64,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
+			size_t used = size_t(m_Block->Free - m_Block->Data);
+
+			// A full allocator can't even give out 0 bytes, since it wouldn't own the address
+			if (used >= Size || (used + totalSize) > Size)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From f2a0d829fdd593825a680b7f9ee6787e7a401a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 05/42] fix: linear_allocator and stack_allocator handed out
 blocks for enormous requests

Rounding a size close to SIZE_MAX up to the alignment, or adding it to the
bytes in use, wrapped around, so such requests succeeded.
---
 include/ktl/allocators/linear_allocator.h | 2 +-
 include/ktl/allocators/stack_allocator.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 6df8400..4f9721b 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -79,7 +79,7 @@ namespace ktl
 			size_t used = size_t(m_Free - m_Data);
 
 			// A full allocator can't even give out 0 bytes, since it wouldn't own the address
-			if (used >= Size || (used + totalSize) > Size)
+			if (n > Size || used >= Size || (used + totalSize) > Size)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index b4a1dc5..5bc0aa3 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -67,7 +67,7 @@ namespace ktl
 			size_t used = size_t(m_Block->Free - m_Block->Data);
 
 			// A full allocator can't even give out 0 bytes, since it wouldn't own the address
-			if (used >= Size || (used + totalSize) > Size)
+			if (n > Size || used >= Size || (used + totalSize) > Size)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From 50866704c0ac684adf74c3d94690ecaf655d7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 06/42] fix: type_allocator::allocate() handed out undersized
 blocks when the byte size overflowed

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..c351f3d 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must be representable
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From f193665fa09199faf36427af5a113007620820d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 07/42] fix: overflow::allocate() wrote out of bounds when
 adding the guard bytes wrapped around

---
 include/ktl/allocators/overflow.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index f4c687d..faec80f 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -7,6 +7,7 @@
 #include "type_allocator.h"
 
 #include <cstring>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -104,6 +105,10 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The size including the guard bytes must be representable
+			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
+				return nullptr;
+
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
-- 
2.43.0


From 65e411a50732bacc6c0d17c1bad348566a5b142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 08/42] fix: cascading dereferenced a null pointer when the
 heap refused memory for an instance

---
 include/ktl/allocators/cascading.h   | 9 +++++++++
 include/ktl/utility/aligned_malloc.h | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index b8c468f..c84885b 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,9 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -112,6 +115,9 @@ namespace ktl
 			{
 				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
+				if (!next)
+					return nullptr;
+
 				p = next->Allocator.allocate(n);
 
 				// Don't keep the new allocator if it can't allocate it either
@@ -257,6 +263,9 @@ namespace ktl
 			// Before the first allocation, ask the instance that would be created for it
 			node* first = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!first)
+				return 0;
+
 			size_type size = first->Allocator.max_size();
 
 			detail::aligned_delete(first);
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..1232ce3 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -91,7 +91,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p != nullptr)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From 66fee5a4c017f80cbd30fac4a78355a487852821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 09/42] fix: shared dereferenced a null pointer when the heap
 refused memory for its block

---
 include/ktl/allocators/shared.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..fba3a6e 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -7,6 +7,7 @@
 #include "shared_fwd.h"
 
 #include <atomic>
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -132,6 +133,8 @@ namespace ktl
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			if (!m_Block) return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
@@ -166,6 +169,8 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			if (!m_Block) return (std::numeric_limits<size_type>::max)();
+
 			return m_Block->Allocator.max_size();
 		}
 
@@ -174,6 +179,8 @@ namespace ktl
 		owns(void* p) const
 			noexcept(detail::has_nothrow_owns_v<A>)
 		{
+			if (!m_Block) return false;
+
 			return m_Block->Allocator.owns(p);
 		}
 #pragma endregion
-- 
2.43.0


From dae56ca34eb4b7dc57a8e340e8618078205559d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 10/42] fix: global compared both equal and unequal to every
 other instance

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 3aa2f923be76f3bcb913821a1377f6cef097d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 11/42] fix: shared released its own block on self-assignment

---
 include/ktl/allocators/shared.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index fba3a6e..b58a1cb 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -96,6 +96,10 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			// Assigning between handles to the same block must not release it
+			if (m_Block == rhs.m_Block)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
@@ -108,6 +112,9 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
-- 
2.43.0


From 2a2749d8a07fb82a55e6d7456645c534e8374678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 12/42] fix: comparing moved-from shared allocators
 dereferenced a null pointer

---
 include/ktl/allocators/shared.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index b58a1cb..6736861 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -127,13 +127,13 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 6b0ba2d44ea4e1caf1a7ddce0f4b614285a13524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 13/42] fix: move-assigned linear_allocator kept counting the
 allocations it had dropped

---
 include/ktl/allocators/linear_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 4f9721b..711e621 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -49,6 +49,7 @@ namespace ktl
 		linear_allocator& operator=(linear_allocator&& rhs) noexcept
 		{
 			m_Free = m_Data;
+			m_ObjectCount = 0;
 
 			// Moving raw allocators in use is undefined
 			KTL_ASSERT(rhs.m_ObjectCount == 0);
-- 
2.43.0


From a9d2ae3085cbd5be9eb2a0ea32fbac7201d6e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 14/42] fix: trivial_vector, trivial_array and binary_heap
 released their own elements on self-assignment

---
 include/ktl/containers/binary_heap.h    | 6 ++++++
 include/ktl/containers/trivial_array.h  | 6 ++++++
 include/ktl/containers/trivial_vector.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..d21bc36 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -184,6 +184,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
@@ -207,6 +210,9 @@ namespace ktl
 
         binary_heap& operator=(binary_heap&& other) noexcept(std::is_nothrow_move_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             // Deconstruct elements
             if (m_Begin)
             {
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..a919c1b 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -177,6 +180,9 @@ namespace ktl
 
 		trivial_array& operator=(trivial_array&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..28b5823 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
@@ -190,6 +193,9 @@ namespace ktl
 
 		trivial_vector& operator=(trivial_vector&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 11d1826d89ffcc51e035d3107b354e58ba447a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 15/42] fix: moving a container to another allocator
 deallocated the old block with its size in bytes

---
 include/ktl/containers/binary_heap.h    | 2 +-
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index d21bc36..c15cc39 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -163,7 +163,7 @@ namespace ktl
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index a919c1b..e369074 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 28b5823..297ccd7 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From daac0c893dbd3385b9a8a1084b221b5d6ca665f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 16/42] fix: moving a binary_heap to another allocator never
 destroyed the old elements

---
 include/ktl/containers/binary_heap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index c15cc39..87a62e7 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,7 +160,10 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            {
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+            }
 
             if (other.m_Begin != nullptr)
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
-- 
2.43.0


From 09add1bda32554c393951f794f65ea18680fe427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 17/42] fix: popping the last element of a binary_heap read and
 assigned a destroyed element

---
 include/ktl/containers/binary_heap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 87a62e7..f416c90 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -337,9 +337,12 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            // The root may be the last element, in which case there is nothing to put in its place
+            if (--m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
-- 
2.43.0


From 7124b32cbbabc4657678421ca25afc18c1bc81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 18/42] fix: binary_heap copied its elements although it only
 requires them to be movable

---
 include/ktl/containers/binary_heap.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index f416c90..4e71b11 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -335,7 +335,7 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
 
             // The root may be the last element, in which case there is nothing to put in its place
             if (--m_Size > 0)
@@ -425,7 +425,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -442,8 +442,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -460,14 +458,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From 0949a643e1c958b4bc26a72b3a5f3357e63b4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 19/42] fix: trivial_vector and binary_heap read a deallocated
 element when inserting one of their own while growing

---
 include/ktl/containers/binary_heap.h    |  8 +++++++-
 include/ktl/containers/trivial_vector.h | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 4e71b11..cbc7e2d 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -307,9 +307,15 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be part of the heap, which expanding deallocates
+                T temp(std::forward<V>(value));
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(temp));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 297ccd7..58c23f1 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -313,9 +313,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be part of the vector, which expanding deallocates
+			T value(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -327,9 +330,12 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			// The element may be part of the vector, which expanding deallocates
+			T value(std::move(element));
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -364,9 +370,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may be part of the vector, which expanding deallocates
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
-- 
2.43.0


From 76620a587ac4b25449d50a445d7d9bb4a87a73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 20/42] fix: trivial_vector::emplace() and pop_back() did not
 compile

---
 include/ktl/containers/trivial_vector.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 58c23f1..801ffe0 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -388,17 +388,24 @@ namespace ktl
 		 * @return An iterator to the element that was added.
 		*/
 		template<typename... Args>
-		void emplace(const_iterator iter, Args&&... args) noexcept
+		iterator emplace(const_iterator iter, Args&&... args) noexcept
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			// Both the iterator and the arguments may refer to elements, which expanding deallocates
+			const size_t index = iter - m_Begin;
+			T value(std::forward<Args>(args)...);
+            
 			if (m_End == m_EndMax)
 				expand(1);
             
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
+			iterator element = m_Begin + index;
+			std::memmove(element + 1, element, (m_End - element) * sizeof(T));
             
-			*iter = T(std::forward<Args>(args)...);
+			*element = std::move(value);
 			m_End++;
+            
+			return element;
 		}
         
         /**
@@ -439,7 +446,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 66b28ce86191f62b97d2feb3871af267644798ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 21/42] fix: trivial_vector and trivial_array passed null
 pointers to memcpy when there was nothing to copy

---
 include/ktl/containers/trivial_array.h  | 19 ++++++++++++-------
 include/ktl/containers/trivial_vector.h | 22 ++++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index e369074..dd5b4ad 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -104,7 +104,8 @@ namespace ktl
 			m_End(m_Begin + size_t(last - first))
 		{
 			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 		trivial_array(const trivial_array& other) noexcept :
@@ -112,7 +113,7 @@ namespace ktl
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
 			m_End(m_Begin + other.size())
 		{
-            if (other.m_Begin != nullptr)
+            if (!other.empty())
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -130,7 +131,7 @@ namespace ktl
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
 			m_End(m_Begin + other.size())
 		{
-            if (other.m_Begin != nullptr)
+            if (!other.empty())
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
         
@@ -142,7 +143,8 @@ namespace ktl
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
-                std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
+                if (!other.empty())
+                    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
@@ -174,7 +176,8 @@ namespace ktl
 			m_Begin = alBlock;
 			m_End = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -276,7 +279,8 @@ namespace ktl
 
 				if (m_Begin != nullptr)
 				{
-					std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
+					if (curSize > 0 && n > 0)
+						std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
 					Traits::deallocate(m_Alloc, m_Begin, curSize);
 				}
 
@@ -305,7 +309,8 @@ namespace ktl
 				m_End = m_Begin + n;
 			}
 
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 	private:
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 801ffe0..527ae86 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -110,7 +110,8 @@ namespace ktl
 			m_EndMax(m_End)
 		{
 			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 		trivial_vector(const trivial_vector& other) noexcept :
@@ -119,7 +120,7 @@ namespace ktl
 			m_End(m_Begin + other.size()),
 			m_EndMax(m_End)
 		{
-            if (other.m_Begin != nullptr)
+            if (!other.empty())
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -140,7 +141,7 @@ namespace ktl
 			m_End(m_Begin + other.size()),
 			m_EndMax(m_End)
 		{
-			if (other.m_Begin != nullptr)
+			if (!other.empty())
 				std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -153,7 +154,8 @@ namespace ktl
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
-                std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
+                if (!other.empty())
+                    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
@@ -187,7 +189,8 @@ namespace ktl
 			m_End = m_Begin + n;
 			m_EndMax = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -356,7 +359,8 @@ namespace ktl
 			T* lastElement = m_End;
 			m_End += n;
 
-			std::memcpy(lastElement, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(lastElement, first, n * sizeof(T));
 
 			return lastElement;
 		}
@@ -435,7 +439,8 @@ namespace ktl
             KTL_ASSERT(first <= last);
             KTL_ASSERT(first >= m_Begin && last <= m_End);
             
-            std::memmove(const_cast<iterator>(first), last, (m_End - last) * sizeof(T));
+            if (first != last)
+                std::memmove(const_cast<iterator>(first), last, (m_End - last) * sizeof(T));
             
             m_End -= (last - first);
             
@@ -470,7 +475,8 @@ namespace ktl
 
 			if (m_Begin != nullptr)
 			{
-				std::memcpy(alBlock, m_Begin, curSize * sizeof(T));
+				if (curSize > 0)
+					std::memcpy(alBlock, m_Begin, curSize * sizeof(T));
 
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 			}
-- 
2.43.0


From 75143c86ea699e2db567167f6bcba815b57ff0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 22/42] fix: trivial_buffer was misaligned and most of it did
 not compile for anything but uint8_t

---
 include/ktl/containers/trivial_buffer.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..c163ac3 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -31,14 +31,14 @@ namespace ktl
 
 		explicit trivial_buffer(const T& value)
 		{
-			std::uninitialized_fill_n<T*, size_t>(reinterpret_cast<T*>(m_Data), Size, value);
+			std::uninitialized_fill_n<T*, size_t>(m_Data, Size, value);
 		}
 
 		trivial_buffer(std::initializer_list<T> initializer)
 		{
 			KTL_ASSERT(initializer.size() <= Size);
 
-			T* dst = reinterpret_cast<T*>(m_Data);
+			T* dst = m_Data;
 			for (auto value : initializer)
 			{
 				*dst = value;
@@ -81,7 +81,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& operator[](size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& operator[](size_t index) noexcept { return m_Data[index % Size]; }
 
 		/**
 		 * @brief Returns a const reference to the element at @p index, rolling.
@@ -89,7 +89,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		iterator begin() noexcept { return m_Data; }
@@ -133,7 +133,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return m_Data[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		/**
@@ -149,6 +157,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		T m_Data[Size];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From ed21575ec54cbc297acf2c2d581b629dce46f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 23/42] fix: aligned_malloc() swapped the arguments of
 posix_memalign()

---
 include/ktl/utility/aligned_malloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 1232ce3..2aa7b22 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,7 +53,7 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From 43bbb6e1f2885e82580ba561e41f7fcefe5c84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 24/42] fix: the portable aligned_malloc() handed out
 undersized blocks when the padded size overflowed

---
 include/ktl/utility/aligned_malloc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 2aa7b22..33582f7 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -59,6 +59,10 @@ namespace ktl::detail
 #elif defined(_MSC_VER)
         return _aligned_malloc(size, alignment);
 #else
+        // The padded size must be representable
+        if (size > ~size_t(0) - alignment)
+            return nullptr;
+
         void* res = nullptr;
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
-- 
2.43.0


From ef9398de0a3901e2ba1176982c5eb5220e00dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 25/42] fix: freelist asserted when moved over an allocator
 that hands over its state

---
 include/ktl/allocators/freelist.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index c7479c9..7156a48 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -62,7 +62,7 @@ namespace ktl
 			m_Free(other.m_Free)
 		{
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == other.m_Alloc || other.m_Free == nullptr);
+			assert_owned();
 
 			other.m_Free = nullptr;
 		}
@@ -83,7 +83,7 @@ namespace ktl
 			m_Free = rhs.m_Free;
 
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == rhs.m_Alloc || rhs.m_Free == nullptr);
+			assert_owned();
 
 			rhs.m_Free = nullptr;
 
@@ -225,6 +225,16 @@ namespace ktl
 		}
 
 	private:
+		void assert_owned() const
+			noexcept(!detail::has_owns_v<Alloc> || detail::has_nothrow_owns_v<Alloc>)
+		{
+			// The moved-from allocator may no longer be equal, but the free list must have followed along
+			if constexpr (detail::has_owns_v<Alloc>)
+			{
+				KTL_ASSERT(m_Free == nullptr || m_Alloc.owns(m_Free));
+			}
+		}
+
 		void release()
 			noexcept(detail::has_nothrow_deallocate_v<Alloc>)
 		{
-- 
2.43.0


From bb9979fa5b53def4fa5edf9f5c75d5fd36d343c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 26/42] fix: several headers did not compile on their own

---
 include/ktl/utility/aligned_malloc.h | 1 +
 include/ktl/utility/meta.h           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 33582f7..2df8193 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdlib>
 #include <memory>
 
 // KTL_MALLOC_ALREADY_ALIGNED
diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 3374fe8..75204a5 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
+#include <utility>
 
 namespace ktl::detail
 {
-- 
2.43.0


From 6113a98150faf3686248c96ec54fabc86ce6eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 27/42] fix: a moved-from overflow kept counting what it had
 handed over

---
 include/ktl/allocators/overflow.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index faec80f..3bc7d43 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -55,7 +55,17 @@ namespace ktl
 
 		overflow(const overflow&) = default;
 
-		overflow(overflow&&) = default;
+		overflow(overflow&& other)
+			noexcept(std::is_nothrow_move_constructible_v<Alloc>) :
+			m_Stream(other.m_Stream),
+			m_Alloc(std::move(other.m_Alloc)),
+			m_Allocs(other.m_Allocs),
+			m_Constructs(other.m_Constructs)
+		{
+			// Whatever hasn't been deallocated or destroyed yet is no longer up to the other allocator
+			other.m_Allocs = 0;
+			other.m_Constructs = 0;
+		}
 
 		~overflow()
 		{
-- 
2.43.0


From ad97c99ace923a8354a9e09dd55b5c23cff334ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 28/42] fix: cascading and freelist released everything they
 held when moved to themselves

---
 include/ktl/allocators/cascading.h | 3 +++
 include/ktl/allocators/freelist.h  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index c84885b..d369ad1 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -64,6 +64,9 @@ namespace ktl
 		cascading& operator=(cascading&& rhs)
 			noexcept(std::is_nothrow_move_assignable_v<node>)
 		{
+			if (this == &rhs)
+				return *this;
+
 			release();
 
 			m_Node = std::move(rhs.m_Node);
diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index 7156a48..12e90fe 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -77,6 +77,9 @@ namespace ktl
 		freelist& operator=(freelist&& rhs)
 			noexcept(std::is_nothrow_move_assignable_v<Alloc>)
 		{
+			if (this == &rhs)
+				return *this;
+
 			release();
 
 			m_Alloc = std::move(rhs.m_Alloc);
-- 
2.43.0


From c2e7b749683720e238edee451c06e65282f82812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 29/42] fix: ktl_container_fwd.h did not declare all of the
 containers

---
 include/ktl/ktl_container_fwd.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ktl/ktl_container_fwd.h b/include/ktl/ktl_container_fwd.h
index a7c3aef..0837fc5 100644
--- a/include/ktl/ktl_container_fwd.h
+++ b/include/ktl/ktl_container_fwd.h
@@ -1,5 +1,13 @@
 #pragma once
 
 #include "containers/binary_heap_fwd.h"
+#include "containers/packed_ptr_fwd.h"
 #include "containers/trivial_array_fwd.h"
-#include "containers/trivial_vector_fwd.h"
\ No newline at end of file
+#include "containers/trivial_vector_fwd.h"
+
+namespace ktl
+{
+	// trivial_buffer
+	template<typename T, size_t Size>
+	class trivial_buffer;
+}
\ No newline at end of file
-- 
2.43.0


From 2f5fdb588f5cfc100bb29dee393b7e0b07ef21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:52 +0000
Subject: [PATCH 30/42] fix: trivial_array did not compile where min is a macro

---
 include/ktl/containers/trivial_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index dd5b4ad..e669e26 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -280,7 +280,7 @@ namespace ktl
 				if (m_Begin != nullptr)
 				{
 					if (curSize > 0 && n > 0)
-						std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
+						std::memcpy(alBlock, m_Begin, (std::min)(curSize, n) * sizeof(T));
 					Traits::deallocate(m_Alloc, m_Begin, curSize);
 				}
 
-- 
2.43.0


From 2ee503188d683e918f0fff6f95c84621f4c98cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 31/42] fix: aligned_new released no memory when the
 constructor throws

---
 include/ktl/utility/aligned_malloc.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 2df8193..25b9d14 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -95,9 +95,13 @@ namespace ktl::detail
     T* aligned_new(size_t alignment, Args&&... args)
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
-        T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        if (p != nullptr)
-            ::new(p) T(std::forward<Args>(args)...);
+        // Give the memory back if the constructor throws
+        std::unique_ptr<void, decltype(&aligned_free)> memory(aligned_malloc(sizeof(T), alignment), &aligned_free);
+        if (!memory)
+            return nullptr;
+
+        T* p = ::new(memory.get()) T(std::forward<Args>(args)...);
+        memory.release();
         return p;
     }
 
-- 
2.43.0


From b117f02e62f9f1258f3a59bd7fcd7eeeac6eaaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 32/42] fix: cascading leaked a new node when allocating from
 it throws

---
 include/ktl/allocators/cascading.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d369ad1..013425a 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -41,6 +41,16 @@ namespace ktl
 			node* Next = nullptr;
 		};
 
+		struct node_delete
+		{
+			void operator()(node* p) const
+			{
+				detail::aligned_delete(p);
+			}
+		};
+
+		typedef std::unique_ptr<node, node_delete> node_ptr;
+
 	public:
 		cascading() noexcept :
 			m_Node(nullptr) {}
@@ -116,19 +126,16 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
+				// Don't keep the new allocator if it can't allocate it either, or throws
+				node_ptr next(detail::aligned_new<node>(detail::ALIGNMENT));
 
 				if (!next)
 					return nullptr;
 
 				p = next->Allocator.allocate(n);
 
-				// Don't keep the new allocator if it can't allocate it either
 				if (p == nullptr)
-				{
-					detail::aligned_delete(next);
 					return nullptr;
-				}
 
 				// Only the main allocator may be kept without any allocations
 				if (m_Node->Allocations == 0)
@@ -139,7 +146,7 @@ namespace ktl
 				else
 					next->Next = m_Node;
 
-				m_Node = next;
+				m_Node = next.release();
 			}
 
 			if (p)
-- 
2.43.0


From f9481105c74d04f0f6639098ab4b85b712290d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 33/42] fix: cascading::max_size was noexcept although creating
 an allocator may throw, and leaked it

---
 include/ktl/allocators/cascading.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 013425a..e1b1157 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -265,22 +265,18 @@ namespace ktl
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
 		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+			noexcept(detail::has_nothrow_max_size_v<A> && std::is_nothrow_default_constructible_v<node>)
 		{
 			if (m_Node)
 				return m_Node->Allocator.max_size();
 
 			// Before the first allocation, ask the instance that would be created for it
-			node* first = detail::aligned_new<node>(detail::ALIGNMENT);
+			node_ptr first(detail::aligned_new<node>(detail::ALIGNMENT));
 
 			if (!first)
 				return 0;
 
-			size_type size = first->Allocator.max_size();
-
-			detail::aligned_delete(first);
-
-			return size;
+			return first->Allocator.max_size();
 		}
 
 		/**
-- 
2.43.0


From dea867f155b0cf92fa6ff31c784894aac8649576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:52 +0000
Subject: [PATCH 34/42] fix: overflow counted a construction that threw

---
 include/ktl/allocators/overflow.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 3bc7d43..cc129b8 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -195,12 +195,13 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs++;
-
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
 			else
 				::new(p) T(std::forward<Args>(args)...);
+
+			// Only counts if nothing was thrown
+			m_Constructs++;
 		}
 
 		/**
-- 
2.43.0


From 07943bedb945aa044b9356980fc67a4ad63eb597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:22 +0000
Subject: [PATCH 35/42] fix: noexcept of overflow::construct and destroy looked
 at the wrong operand

---
 include/ktl/allocators/overflow.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index cc129b8..ceef2df 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -191,8 +191,8 @@ namespace ktl
 		 * @param ...args A range of arguments to use to construct the object
 		*/
 		template<typename T, typename... Args>
-		void construct(T* p, Args&&... args) noexcept(
-			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
+		void construct(T* p, Args&&... args) noexcept(detail::has_construct_v<Alloc, T*, Args...> ?
+			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
@@ -210,8 +210,8 @@ namespace ktl
 		 * @param p The location of the object in memory
 		*/
 		template<typename T>
-		void destroy(T* p) noexcept(
-			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
+		void destroy(T* p) noexcept(detail::has_destroy_v<Alloc, T*> ?
+			detail::has_nothrow_destroy_v<Alloc, T*> :
 			std::is_nothrow_destructible_v<T>)
 		{
 			m_Constructs--;
-- 
2.43.0


From 821b8db49a3a13903b7196554fe9f22396d54017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 36/42] fix: noexcept of type_allocator's constructor looked at
 the element type

---
 include/ktl/allocators/type_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index c351f3d..e345ede 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -54,7 +54,7 @@ namespace ktl
 			typename = std::enable_if_t<
 			std::is_constructible_v<Alloc, Args...>>>
 		explicit type_allocator(Args&&... alloc)
-			noexcept(std::is_nothrow_constructible_v<T, Args...>) :
+			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Alloc(std::forward<Args>(alloc)...) {}
 
 		type_allocator(const type_allocator&) = default;
-- 
2.43.0


From aaea4f461938cd13b2c5a38dcbedbe60f71b50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:39 +0000
Subject: [PATCH 37/42] fix: binary_heap leaked its elements and storage when
 copying one throws

---
 include/ktl/containers/binary_heap.h | 82 ++++++++++++++--------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index cbc7e2d..34e83ee 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -90,14 +90,12 @@ namespace ktl
          * @param comp The comparator to use. Will be default constructed if unspecified
         */
         binary_heap(std::initializer_list<T> initializer, const Comp& comp = Comp()) :
-            m_Alloc(),
-            m_Comp(comp),
-            m_Size(0),
-            m_Capacity(initializer.size()),
-            m_Begin(Traits::allocate(m_Alloc, initializer.size()))
+            binary_heap(comp)
         {
+            allocate(initializer.size());
+
             for (auto value : initializer)
-                insert(value);
+                insert(std::move(value));
         }
 
         /**
@@ -107,25 +105,18 @@ namespace ktl
          * @param comp The comparator to use. Will be default constructed if unspecified
         */
         binary_heap(std::initializer_list<T> initializer, const Alloc& allocator, const Comp& comp = Comp()) :
-            m_Alloc(allocator),
-            m_Comp(comp),
-            m_Size(0),
-            m_Capacity(initializer.size()),
-            m_Begin(Traits::allocate(m_Alloc, initializer.size()))
+            binary_heap(allocator, comp)
         {
+            allocate(initializer.size());
+
             for (auto value : initializer)
-                insert(value);
+                insert(std::move(value));
         }
 
         binary_heap(const binary_heap& other) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(Traits::select_on_container_copy_construction(other.m_Alloc)),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(Traits::select_on_container_copy_construction(other.m_Alloc), other.m_Comp)
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy_elements(other);
         }
 
         binary_heap(binary_heap&& other) noexcept(std::is_nothrow_move_constructible_v<T>) :
@@ -141,29 +132,21 @@ namespace ktl
         }
 
         binary_heap(const binary_heap& other, const Alloc& allocator) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(allocator),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(allocator, other.m_Comp)
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy_elements(other);
         }
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
-            m_Alloc(allocator),
-            m_Comp(std::move(other.m_Comp)),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(allocator, other.m_Comp)
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
-            for (size_t i = 0; i < m_Size; i++)
-            {
-                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
-                Traits::destroy(other.m_Alloc, other.m_Begin + i);
-            }
+            allocate(other.m_Size);
+
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(other.m_Begin[m_Size]));
+
+            other.clear();
 
             if (other.m_Begin != nullptr)
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
@@ -196,17 +179,18 @@ namespace ktl
                     Traits::destroy(m_Alloc, m_Begin + i);
 
                 Traits::deallocate(m_Alloc, m_Begin, m_Capacity);
+
+                // Nothing is held if what follows throws
+                m_Size = 0;
+                m_Capacity = 0;
+                m_Begin = nullptr;
             }
 
             m_Alloc = other.m_Alloc;
             m_Comp = other.m_Comp;
-            m_Size = other.m_Size;
-            m_Capacity = other.m_Size;
-            m_Begin = Traits::allocate(m_Alloc, m_Capacity);
 
             // Copy construct elements
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            copy_elements(other);
 
             return *this;
         }
@@ -381,6 +365,22 @@ namespace ktl
         }
 
     private:
+        // Only called while there is no storage. If it throws there still isn't
+        void allocate(size_t n)
+        {
+            m_Begin = Traits::allocate(m_Alloc, n);
+            m_Capacity = n;
+        }
+
+        // Only called while there is no storage. If it throws the elements already copied are kept
+        void copy_elements(const binary_heap& other)
+        {
+            allocate(other.m_Size);
+
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
+        }
+
         void expand(size_t n) noexcept
         {
             size_t curCap = capacity();
-- 
2.43.0


From 106049fe69a3b29451aae6a655e9ee9f85a8ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:59 +0000
Subject: [PATCH 38/42] fix: segragator offered construct()/destroy() that did
 not compile without owns()

---
 include/ktl/allocators/segragator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 82c124c..d4975ce 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -115,7 +115,7 @@ namespace ktl
 
 #pragma region Construction
 		template<typename T, typename... Args>
-		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
+		typename std::enable_if<detail::has_owns_v<P> && (detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>), void>::type
 		construct(T* p, Args&&... args) noexcept(
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
@@ -145,7 +145,7 @@ namespace ktl
 		}
 
 		template<typename T>
-		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
+		typename std::enable_if<detail::has_owns_v<P> && (detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>), void>::type
 		destroy(T* p) noexcept(
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
-- 
2.43.0


From 654695ff571f5e908e97445019cf2052440ba5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 39/42] fix: requests beyond the size type of an underlying
 allocator were truncated

---
 include/ktl/allocators/fallback.h       | 10 ++++++----
 include/ktl/allocators/segragator.h     |  8 ++++----
 include/ktl/allocators/type_allocator.h |  2 +-
 include/ktl/utility/meta.h              | 12 ++++++++++++
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/fallback.h b/include/ktl/allocators/fallback.h
index 181af7b..bff590f 100644
--- a/include/ktl/allocators/fallback.h
+++ b/include/ktl/allocators/fallback.h
@@ -27,7 +27,7 @@ namespace ktl
 		static_assert(detail::has_owns_v<P>, "The primary allocator is required to have an 'owns(void*)' method");
 
 	public:
-		typedef typename detail::get_size_type_t<P> size_type;
+		typedef detail::get_larger_size_type_t<P, F> size_type;
 
 		fallback() = default;
 
@@ -100,8 +100,10 @@ namespace ktl
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<P> && detail::has_nothrow_allocate_v<F>)
 		{
-			void* ptr = m_Primary.allocate(n);
-			if (!ptr)
+			void* ptr = nullptr;
+			if (detail::is_representable<P>(n))
+				ptr = m_Primary.allocate(n);
+			if (!ptr && detail::is_representable<F>(n))
 				return m_Fallback.allocate(n);
 			return ptr;
 		}
@@ -187,7 +189,7 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<Primary> && detail::has_nothrow_max_size_v<Fallback>)
 		{
-			return (std::max)(m_Primary.max_size(), m_Fallback.max_size());
+			return (std::max)(size_type(m_Primary.max_size()), size_type(m_Fallback.max_size()));
 		}
 
 		template<typename Primary = P, typename Fallback = F>
diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index d4975ce..b79306b 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -24,7 +24,7 @@ namespace ktl
 		static_assert(detail::has_no_value_type_v<F>, "Building on top of typed allocators is not allowed. Use allocators without a type");
 
 	public:
-		typedef typename detail::get_size_type_t<P> size_type;
+		typedef detail::get_larger_size_type_t<P, F> size_type;
 
 		segragator() = default;
 
@@ -98,9 +98,9 @@ namespace ktl
 			noexcept(detail::has_nothrow_allocate_v<P> && detail::has_nothrow_allocate_v<F>)
 		{
 			if (n <= Threshold)
-				return m_Primary.allocate(n);
+				return detail::is_representable<P>(n) ? m_Primary.allocate(n) : nullptr;
 			else
-				return m_Fallback.allocate(n);
+				return detail::is_representable<F>(n) ? m_Fallback.allocate(n) : nullptr;
 		}
 
 		void deallocate(void* p, size_t n)
@@ -181,7 +181,7 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<Primary> && detail::has_nothrow_max_size_v<Fallback>)
 		{
-			return (std::max)(m_Primary.max_size(), m_Fallback.max_size());
+			return (std::max)(size_type(m_Primary.max_size()), size_type(m_Fallback.max_size()));
 		}
 
 		template<typename Primary = P, typename Fallback = F>
diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index e345ede..71abdd5 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -100,7 +100,7 @@ namespace ktl
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
 			// The size in bytes must be representable
-			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+			if (n > (std::numeric_limits<size_type>::max)() / sizeof(value_type))
 				return nullptr;
 
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 75204a5..8143ba9 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <type_traits>
 #include <utility>
 
@@ -32,6 +33,17 @@ namespace ktl::detail
 	template<typename Alloc>
 	using get_size_type_t = typename get_size_type<Alloc, void>::type;
 
+	// get the largest size_type of 2 allocators
+	template<typename P, typename F>
+	using get_larger_size_type_t = std::conditional_t<(sizeof(get_size_type_t<F>) > sizeof(get_size_type_t<P>)), get_size_type_t<F>, get_size_type_t<P>>;
+
+	// Whether a size can be given to the allocator without being truncated
+	template<typename Alloc>
+	constexpr bool is_representable(size_t n) noexcept
+	{
+		return n <= size_t((std::numeric_limits<get_size_type_t<Alloc>>::max)());
+	}
+
 	// has construct(T*, Args&&...)
 	template<typename Void, typename... Types>
 	struct has_construct : std::false_type {};
-- 
2.43.0


From 524d3ea7ef4539d6d8fe9b81010dbebfb0abd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:58 +0000
Subject: [PATCH 40/42] fix: handles and blocks were counted in the allocator's
 size type

---
 include/ktl/allocators/cascading.h | 2 +-
 include/ktl/allocators/shared.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index e1b1157..8ffd1b3 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -37,7 +37,7 @@ namespace ktl
 		struct node
 		{
 			KTL_EMPTY_BASE Alloc Allocator;
-			size_type Allocations = 0;
+			size_t Allocations = 0;
 			node* Next = nullptr;
 		};
 
diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6736861..7968b97 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -47,7 +47,7 @@ namespace ktl
 		struct block
 		{
 			KTL_EMPTY_BASE Alloc Allocator;
-			Atomic<detail::get_size_type_t<Alloc>> UseCount;
+			Atomic<size_t> UseCount;
 
 			template<typename... Args,
 				typename = std::enable_if_t<
-- 
2.43.0


From 875c5c9f19f4a0427a957820cecb0e8ab36be73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:11 +0000
Subject: [PATCH 41/42] fix: Deduce noexcept of operator!= from operator!= of
 the underlying allocator

---
 include/ktl/utility/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 8143ba9..6b5abda 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -98,9 +98,9 @@ namespace ktl::detail
 	template<typename T>
 	constexpr bool has_nothrow_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
 
-	// has T& == T& noexcept
+	// has T& != T& noexcept
 	template<typename T>
-	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
+	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() != std::declval<T&>());
 
 	// has construct(T*, Args&&...) noexcept
 	template<typename Void, typename... Types>
-- 
2.43.0


From 32c4f20c179430606cd72d010f4b2c7e068c60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:11 +0000
Subject: [PATCH 42/42] fix: Let exceptions from owns() pass through fallback
 and segragator

---
 include/ktl/allocators/fallback.h   | 4 +++-
 include/ktl/allocators/segragator.h | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/fallback.h b/include/ktl/allocators/fallback.h
index bff590f..39a1a12 100644
--- a/include/ktl/allocators/fallback.h
+++ b/include/ktl/allocators/fallback.h
@@ -109,7 +109,7 @@ namespace ktl
 		}
 
 		void deallocate(void* p, size_t n)
-			noexcept(detail::has_nothrow_deallocate_v<P>&& detail::has_nothrow_deallocate_v<F>)
+			noexcept(detail::has_nothrow_owns_v<P> && detail::has_nothrow_deallocate_v<P> && detail::has_nothrow_deallocate_v<F>)
 		{
 			if (m_Primary.owns(p))
 			{
@@ -125,6 +125,7 @@ namespace ktl
 		template<typename T, typename... Args>
 		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -155,6 +156,7 @@ namespace ktl
 		template<typename T>
 		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index b79306b..caa8ab2 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -117,6 +117,7 @@ namespace ktl
 		template<typename T, typename... Args>
 		typename std::enable_if<detail::has_owns_v<P> && (detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>), void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -147,6 +148,7 @@ namespace ktl
 		template<typename T>
 		typename std::enable_if<detail::has_owns_v<P> && (detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>), void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
-- 
2.43.0

