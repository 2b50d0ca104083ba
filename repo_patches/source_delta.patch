From 981836e0d1474de3de67d030058c6c51d27294b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:23 +0000
Subject: [PATCH 01/28] fix: release elements and memory when an element
 operation throws in VariableLengthArray

An exception from an element constructor leaked the elements constructed so
far and the new buffer in reserve, resize, shrink_to_fit, the assignments and
all constructors that copy elements. Roll back partial construction, return
the new buffer, and free the storage in the base class destructor so that it
also happens when a derived constructor throws.
---
 include/cetl/variable_length_array.hpp | 119 ++++++++++++++++++++-----
 1 file changed, 98 insertions(+), 21 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..79ddc51 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -252,6 +252,76 @@ protected:
         alloc.deallocate(src, src_capacity_count);
     }
 
+    // +----------------------------------------------------------------------+
+    // | EXCEPTION SAFETY
+    // +----------------------------------------------------------------------+
+    ///
+    /// Destroys the elements constructed so far unless the construction of all elements completed.
+    ///
+    class ConstructionGuard final
+    {
+    public:
+        explicit ConstructionGuard(value_type* const first) noexcept
+            : first_{first}
+        {
+        }
+        ConstructionGuard(const ConstructionGuard&)            = delete;
+        ConstructionGuard& operator=(const ConstructionGuard&) = delete;
+
+        ~ConstructionGuard()
+        {
+            fast_destroy(first_, count_);
+        }
+
+        void element_constructed() noexcept
+        {
+            ++count_;
+        }
+
+        void complete() noexcept
+        {
+            count_ = 0;
+        }
+
+    private:
+        value_type* const first_;
+        size_type         count_{0};
+    };
+
+    ///
+    /// Returns newly allocated memory to its allocator unless it was taken over by the container.
+    ///
+    class AllocationGuard final
+    {
+    public:
+        AllocationGuard(allocator_type& alloc, value_type* const data, const size_type capacity_count) noexcept
+            : alloc_{alloc}
+            , data_{data}
+            , capacity_count_{capacity_count}
+        {
+        }
+        AllocationGuard(const AllocationGuard&)            = delete;
+        AllocationGuard& operator=(const AllocationGuard&) = delete;
+
+        ~AllocationGuard()
+        {
+            if (nullptr != data_)
+            {
+                alloc_.deallocate(data_, capacity_count_);
+            }
+        }
+
+        void complete() noexcept
+        {
+            data_ = nullptr;
+        }
+
+    private:
+        allocator_type& alloc_;
+        value_type*     data_;
+        const size_type capacity_count_;
+    };
+
     // +----------------------------------------------------------------------+
     // | COPY ASSIGNMENT
     // +----------------------------------------------------------------------+
@@ -334,13 +404,16 @@ protected:
                                                      std::declval<std::add_lvalue_reference_t<
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard guard{dst};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
                                                              &dst[static_cast<difference_type>(i)],
                                                              src[static_cast<difference_type>(i)]);
+            guard.element_constructed();
         }
+        guard.complete();
         return max_copy_size;
     }
 
@@ -372,11 +445,14 @@ protected:
         typename std::enable_if_t<
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard guard{dst};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            guard.element_constructed();
         }
+        guard.complete();
         return max_copy_size;
     }
 
@@ -637,7 +713,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                AllocationGuard guard{alloc_, new_data, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                guard.complete();
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -666,10 +744,13 @@ protected:
                 }
 #endif
             }
+            ConstructionGuard guard{data_ + size_};
             for (std::size_t i = size_; i < new_size; ++i)
             {
                 std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                guard.element_constructed();
             }
+            guard.complete();
         }
         else
         {
@@ -720,7 +801,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                AllocationGuard guard{alloc_, minimized_data, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                guard.complete();
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -842,7 +925,17 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    ~VariableLengthArrayBase() = default;
+    ~VariableLengthArrayBase()
+    {
+        // Done here, and not in the destructors of the derived classes, because those do not run when one of their
+        // constructors throws.
+        if (nullptr != data_)
+        {
+            // While deallocation is null-safe, we don't know if the allocator
+            // was moved and is now in an invalid state.
+            fast_deallocate(data_, size_, capacity_, alloc_);
+        }
+    }
 
     // +----------------------------------------------------------------------+
     // | DATA MEMBERS
@@ -1050,15 +1143,7 @@ public:
         return *this;
     }
 
-    ~VariableLengthArray()
-    {
-        if (nullptr != data_)
-        {
-            // While deallocation is null-safe, we don't know if the allocator
-            // was moved and is now in an invalid state.
-            Base::fast_deallocate(data_, size_, capacity_, alloc_);
-        }
-    }
+    ~VariableLengthArray() = default;
 
     // +----------------------------------------------------------------------+
     // | COMPARATORS
@@ -1916,15 +2001,7 @@ public:
         return *this;
     }
 
-    ~VariableLengthArray()
-    {
-        if (nullptr != data_)
-        {
-            // While deallocation is null-safe, we don't know if the allocator
-            // was move and is now in an invalid state.
-            Base::fast_deallocate(data_, size_, capacity_, alloc_);
-        }
-    }
+    ~VariableLengthArray() = default;
 
     // +----------------------------------------------------------------------+
     // | COMPARATORS
-- 
2.43.0


From cd611ac244b87519967a239dd4eb72ae834940ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 02/28] fix: let a reallocation failure reach the caller of
 memory_resource_traits::reallocate

reallocate() is documented to throw std::bad_alloc, but the helper it calls
was noexcept, so a throwing resource terminated the program.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..2469c7c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -276,7 +276,7 @@ private:
                     void*       ptr,
                     std::size_t old_size_bytes,
                     std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+                    std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 08b9499ed83ca4cc7fca7c9c2b9b58b1bdacab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 03/28] fix: let exceptions of element assignment leave
 VariableLengthArray

The noexcept expression evaluated whether reading a constant can throw, which
is never the case, so a throwing assignment operator terminated the program.
---
 include/cetl/variable_length_array.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 79ddc51..83655c7 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -330,8 +330,7 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src)
     {
         if (nullptr == dst)
         {
@@ -350,8 +349,7 @@ protected:
         value_type* dst,
         size_type   dst_capacity_count,
         InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+        size_type   src_len_count)
     {
         if (nullptr == dst || nullptr == src)
         {
-- 
2.43.0


From e187a5d06b811ff44537b6100ae4203ee62e8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:29 +0000
Subject: [PATCH 04/28] fix: keep VariableLengthArray within the maximum size
 adopted by assignment

Assignment adopts the maximum size of the source but keeps the capacity of the
target. push_back, emplace_back, resize and assign only compared against the
capacity, so the array could grow beyond max_size(). A move assignment between
unequal allocators did not adopt the maximum size at all, and a failed copy
assignment adopted it although nothing was copied.
---
 include/cetl/variable_length_array.hpp | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 83655c7..59894f9 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -496,7 +496,6 @@ protected:
         {
             return;
         }
-        max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
             rhs.size_ <= capacity_)
@@ -549,6 +548,10 @@ protected:
             reserve(new_size, rhs_max_size);
             size_ = fast_copy_construct(data_, capacity_, rhs.data_, new_size, alloc_);
         }
+        if (size_ == rhs.size_)
+        {
+            max_size_max_ = rhs.max_size_max_;
+        }
     }
 
     // +----------------------------------------------------------------------+
@@ -662,8 +665,14 @@ protected:
                 move_assign_alloc(rhs.alloc_);
                 reserve(new_size, rhs_max_size);
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
+                if (size_ != new_size)
+                {
+                    // Only without exceptions: the memory is not available so the elements stay where they are.
+                    return;
+                }
                 rhs.resize(0, rhs_max_size);
             }
+            max_size_max_ = rhs.max_size_max_;
         }
     }
 
@@ -732,6 +741,15 @@ protected:
         if (new_size > size_)
         {
             // grow
+            if (new_size > max_size)
+            {
+                // The capacity may exceed the maximum size since assignment adopts the maximum size of the source.
+#if defined(__cpp_exceptions)
+                throw std::length_error("Requested size exceeds maximum size.");
+#else
+                new_size = std::max(max_size, size_);
+#endif
+            }
             if (new_size > capacity_)
             {
                 reserve(new_size, max_size);
@@ -1590,12 +1608,15 @@ private:
     /// return true if there was or now is enough capacity to add one more element.
     constexpr bool ensure_size_plus_one()
     {
-        if (size_ < capacity_)
+        const size_type current_max_size = max_size();
+
+        if (size_ < capacity_ && size_ < current_max_size)
         {
             return true;
         }
 
-        if (!Base::grow(max_size()))
+        // The capacity may exceed the maximum size since assignment adopts the maximum size of the source.
+        if (size_ >= current_max_size || !Base::grow(current_max_size))
         {
 #if defined(__cpp_exceptions)
             throw std::length_error("size is at capacity and we cannot grow the capacity.");
-- 
2.43.0


From 0144cae27099a07f68aa3d823e094e7989cbca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 05/28] fix: honour the given allocator in allocator-extended
 VariableLengthArray constructors

The allocator-extended move constructor took over memory of an unequal
allocator if the allocator propagates on move assignment. Otherwise it
recorded a capacity it did not allocate, lost the elements and the memory of
the source, and terminated when the allocation or a copy threw.
select_on_container_copy_construction is only meant for the plain copy
constructor, it replaced the allocator that the caller asked for.
---
 include/cetl/variable_length_array.hpp | 59 ++++++++++++++++----------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 59894f9..ed4dbe3 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -864,7 +864,7 @@ protected:
 
     constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
         std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(rhs_alloc)
         , data_(nullptr)
         , capacity_(0)
         , size_(0)
@@ -890,8 +890,8 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        typename std::enable_if_t<std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
+        : alloc_(rhs_alloc)
         , data_(std::move(rhs.data_))
         , capacity_(rhs.capacity_)
         , size_(rhs.size_)
@@ -908,8 +908,8 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        typename std::enable_if_t<!std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr)
+        : alloc_(rhs_alloc)
         , data_{nullptr}
         , capacity_(0)
         , size_(0)
@@ -920,25 +920,29 @@ protected:
         if (alloc_ == rhs.alloc_)
         {
             // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
+            data_         = std::move(rhs.data_);
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            rhs.size_     = 0;
+            rhs.capacity_ = 0;
+            rhs.data_     = nullptr;
         }
-        else
+        else if (rhs.size_ > 0)
         {
             // The allocators are not equal, so we need to move the data over
             // manually.
-            if (rhs.size_ > 0)
+            value_type* const new_data = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
+            if (nullptr != new_data)
             {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                AllocationGuard guard{alloc_, new_data, rhs.size_};
+                size_ = fast_forward_construct(new_data, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                guard.complete();
+                data_     = new_data;
+                capacity_ = rhs.size_;
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
             }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
         }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
     }
 
     ~VariableLengthArrayBase()
@@ -1131,7 +1135,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1141,7 +1146,8 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
     {
     }
@@ -1986,7 +1992,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -2004,11 +2011,19 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
         , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
     {
-        rhs.last_byte_bit_fill_ = 0;
+        if (size_ == 0)
+        {
+            last_byte_bit_fill_ = 0;
+        }
+        if (rhs.size_ == 0)
+        {
+            rhs.last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From d2697a72b1b38675b59221facd023ff98aa733a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 06/28] fix: compare all bytes of two VariableLengthArray<bool>

The last byte but one was left out of the comparison.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ed4dbe3..05c6b74 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2050,7 +2050,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 6187292b7ca4b242789e8a18dceb62f5a079c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 07/28] fix: enforce max_size() when VariableLengthArray<bool>
 grows

The maximum number of bits was used as the maximum number of bytes and was not
compared with the size when a new byte was needed.
---
 include/cetl/variable_length_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 05c6b74..08057d2 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2489,15 +2489,21 @@ public:
 private:
     constexpr bool ensure_size_plus_one()
     {
+        const size_type current_max_size = max_size();
+        if (size_bits() >= current_max_size)
+        {
+            return false;
+        }
+
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
         {
             // we have at least one byte of capacity (first allocation)
             // and we have room in the last byte or we have room for another byte
             // but we haven't reached the max
-            return size_bits() < max_size();
+            return true;
         }
 
-        return Base::grow(max_size());
+        return Base::grow(bits2bytes(current_max_size));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From 2761df75e67d1e52550e6ce9b5ccf1866cac1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 08/28] fix: keep the bit count of VariableLengthArray<bool>
 consistent in assignments

The source of a move assignment kept its bit count although it was emptied,
and a failed copy or assignment left the bit count of the other array.
---
 include/cetl/variable_length_array.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 08057d2..c897490 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1989,6 +1989,10 @@ public:
     {
         reserve_bits(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        if (size_ == 0)
+        {
+            last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1999,8 +2003,10 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
+        const Storage rhs_last_byte_bit_fill = rhs.last_byte_bit_fill_;
+        last_byte_bit_fill_                  = 0;  // This array is empty if the assignment fails.
         Base::copy_assign_from(rhs, rhs.max_size());
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        last_byte_bit_fill_ = (size_ == 0) ? 0 : rhs_last_byte_bit_fill;
         return *this;
     }
 
@@ -2030,8 +2036,14 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        const Storage rhs_last_byte_bit_fill = rhs.last_byte_bit_fill_;
+        last_byte_bit_fill_                  = 0;  // This array is empty if the assignment fails.
         Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        last_byte_bit_fill_ = (size_ == 0) ? 0 : rhs_last_byte_bit_fill;
+        if (rhs.size_ == 0)
+        {
+            rhs.last_byte_bit_fill_ = 0;
+        }
         return *this;
     }
 
-- 
2.43.0


From 6e46a9311cdd9ad8b09fe5ef8f77f2b76bdf6cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 09/28] fix: do not write beyond the capacity in
 VariableLengthArray<bool>::resize

With exceptions disabled the new bits were written even if the allocation
failed.
---
 include/cetl/variable_length_array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index c897490..fbae958 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2442,11 +2442,13 @@ public:
         const std::size_t current_count = size_bits();
         if (clamped_count != current_count)
         {
-            const std::size_t byte_sized = bits2bytes(clamped_count);
-            if (byte_sized > capacity_)
+            if (bits2bytes(clamped_count) > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+                // Without exceptions, a failure to allocate leaves us with less capacity than requested.
+                clamped_count = std::min(clamped_count, capacity_bits());
             }
+            const std::size_t byte_sized = bits2bytes(clamped_count);
             if (byte_sized == 0)
             {
                 size_               = 0;
-- 
2.43.0


From f6df66dc0a7755f7442474a4d12552c3ee07fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:21 +0000
Subject: [PATCH 10/28] fix: accept an own element in VariableLengthArray
 push_back and resize

The element was read through a reference that growing had just invalidated.
---
 include/cetl/variable_length_array.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index fbae958..6d940e1 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <functional>
 #include <initializer_list>
 #include <limits>
 #include <memory>
@@ -1511,6 +1512,14 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
+        if (size_ == capacity_ && is_own_element(value))
+        {
+            // Growing would invalidate the reference.
+            const value_type value_copy(value);
+            push_back(value_copy);
+            return;
+        }
+
         if (!ensure_size_plus_one())
         {
             return;
@@ -1591,6 +1600,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
+        if (count > capacity_ && is_own_element(value))
+        {
+            // Growing would invalidate the reference.
+            const value_type value_copy(value);
+            Base::resize(count, max_size(), value_copy);
+            return;
+        }
         Base::resize(count, max_size(), value);
     }
 
@@ -1612,6 +1628,12 @@ private:
     // +----------------------------------------------------------------------+
 
     /// return true if there was or now is enough capacity to add one more element.
+    constexpr bool is_own_element(const value_type& value) const noexcept
+    {
+        const value_type* const ptr = std::addressof(value);
+        return !std::less<const value_type*>{}(ptr, data_) && std::less<const value_type*>{}(ptr, data_ + size_);
+    }
+
     constexpr bool ensure_size_plus_one()
     {
         const size_type current_max_size = max_size();
-- 
2.43.0


From 3ab1fc23f515bf5a2325180307a4f1f7571967a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:20 +0000
Subject: [PATCH 11/28] fix: do not shrink in VariableLengthArray::reserve with
 exceptions disabled

If the maximum size is less than the capacity, a request beyond the maximum
size was clamped to it and the storage was replaced by a smaller one.
---
 include/cetl/variable_length_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 6d940e1..6736ffc 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -702,6 +702,11 @@ protected:
             // deviation from the standard: instead of undefined behaviour we clamp the capacity to the maximum size
             // when exceptions are disabled.
             clamped_capacity = max_size;
+            if (clamped_capacity <= capacity_)
+            {
+                // The capacity may exceed the maximum size since assignment adopts the maximum size of the source.
+                return;
+            }
 #endif
         }
 
-- 
2.43.0


From 5610f55d0dc3475e11282dd454adf7cabb8ef0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:21 +0000
Subject: [PATCH 12/28] fix: stop bool array construction at the first bit that
 cannot be stored

Without exceptions the list and range constructors of VariableLengthArray<bool>
went on after a failed append, so later bits could be stored while earlier ones
were missing.
---
 include/cetl/variable_length_array.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 6736ffc..087fa68 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1960,7 +1960,13 @@ public:
         reserve_bits(l.size(), max_size());
         for (auto list_item : l)
         {
+            const size_type old_size = size();
             emplace_back(list_item);
+            if (size() == old_size)
+            {
+                // Out of memory without exceptions: keep what was stored so far.
+                break;
+            }
         }
     }
 
@@ -1991,7 +1997,13 @@ public:
             reserve_bits(length, max_size());
             for (; first != last; ++first)
             {
+                const size_type old_size = size();
                 emplace_back(*first);
+                if (size() == old_size)
+                {
+                    // Out of memory without exceptions: keep what was stored so far.
+                    break;
+                }
             }
         }
     }
-- 
2.43.0


From fb941f3097063e64187e0aba57e90f9a41bca42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:25 +0000
Subject: [PATCH 13/28] fix: release the variant's buffer when construction of
 its value throws

A PMR-enabled unbounded_variant leaked the allocated buffer if the constructor of
the value (or of its copy) threw while the variant itself was being constructed.
---
 include/cetl/unbounded_variant.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..b674b37 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -201,6 +201,16 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    // Releases the buffer if construction of the variant fails after the allocation
+    // (the variant's own destructor isn't called in such case).
+    ~base_storage()
+    {
+        base_storage::reset();
+    }
+
+    base_storage(const base_storage&)            = delete;
+    base_storage& operator=(const base_storage&) = delete;
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
@@ -358,6 +368,16 @@ struct base_storage
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    // Releases the buffer if construction of the variant fails after the allocation
+    // (the variant's own destructor isn't called in such case).
+    ~base_storage()
+    {
+        base_storage::reset();
+    }
+
+    base_storage(const base_storage&)            = delete;
+    base_storage& operator=(const base_storage&) = delete;
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
-- 
2.43.0


From 894eaeabee916990778563f83f2f9cb2638aa1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:45 +0000
Subject: [PATCH 14/28] fix: copying and moving a variant that is valueless by
 exception

The copy and move operations called a null handler if the source variant was left
valueless by an earlier failure. Its state is now taken over instead.
---
 include/cetl/unbounded_variant.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index b674b37..6f9ad12 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -128,13 +128,13 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return inplace_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src) noexcept
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value) noexcept
     {
         CETL_DEBUG_ASSERT(0UL == value_size_, "This object is expected to be a brand new (or reset) one.");
 
         value_size_ = src.value_size_;
 
-        return value_size_ > 0UL;
+        return src_has_value;
     }
 
     CETL_NODISCARD bool move_raw_storage_from(base_storage& src) noexcept
@@ -265,7 +265,7 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -273,9 +273,10 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         mem_res_ = src.get_memory_resource();
 
         // We don't allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
             // Later we don't need to call copy-ctor for the valueless variant.
+            value_size_ = src.value_size_;
             return false;
         }
 
@@ -437,7 +438,7 @@ struct base_storage
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -445,9 +446,10 @@ struct base_storage
         mem_res_ = src.get_memory_resource();
 
         // We don't even try to allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
             // Later we don't need to call copy-ctor for the valueless variant.
+            value_size_ = src.value_size_;
             return false;
         }
 
@@ -923,7 +925,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (base::copy_raw_storage_from(src, src.has_value()))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -1011,10 +1013,9 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        // There is nothing to move if the source is valueless (by exception).
+        if (base::move_raw_storage_from(src) && (nullptr != src.value_mover_))
         {
-            CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
-
             src.value_mover_(src.get_raw_storage(), base::get_raw_storage());
         }
 
-- 
2.43.0


From 0378448bd64c609f0b95ab5cbfa80a531453784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 15/28] fix: swapping variants that are valueless by exception

Swap treated such a variant as an empty one, and so the buffer that it might still
hold was leaked, or was returned to the memory resource of the other variant.
---
 include/cetl/unbounded_variant.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 6f9ad12..6410f99 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -1365,6 +1365,16 @@ public:
             return;
         }
 
+        // A variant which is valueless (by exception) might still hold a buffer of its memory resource.
+        if (valueless_by_exception())
+        {
+            reset();
+        }
+        if (rhs.valueless_by_exception())
+        {
+            rhs.reset();
+        }
+
         swapVariants(detail::IsPmr<Pmr>{}, IsMovableT{}, rhs);
     }
 
-- 
2.43.0


From 816903799d258c77bb4da7aa1e4462f2ab7fd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:55 +0000
Subject: [PATCH 16/28] fix: dangling target pointer of a function after a
 failed assignment

If copying or storing the new target threw, the function kept a pointer to the
target that had been dropped already.
---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..dbe5cac 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        // The assignment below drops the current target even if it fails.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // The assignment below drops the current target even if it fails.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From 604eefb81ea79f61e1e445745b0cf02815dea85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:14 +0000
Subject: [PATCH 17/28] fix: Factory::make_unique destroyed an object whose
 constructor had thrown

---
 include/cetl/pmr/memory.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..32aa38c 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -235,14 +235,31 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        using UniquePtr = typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>;
+
+        // The construction could throw, so until it's done only the memory is owned -
+        // uninitialized object must not be destroyed.
+        std::unique_ptr<typename UniquePtr::element_type, MemoryReleaser<PolymorphicAllocatorTypeU>>
+            memory{alloc.allocate(1), MemoryReleaser<PolymorphicAllocatorTypeU>{alloc}};
+        if (nullptr != memory)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            alloc.construct(memory.get(), std::forward<Args>(args)...);
         }
-        return p;
+        return UniquePtr{memory.release(), typename UniquePtr::deleter_type{alloc, 1}};
     }
+
+private:
+    /// Deleter which deallocates memory of a not (yet) constructed object.
+    template <typename Allocator>
+    struct MemoryReleaser final
+    {
+        Allocator& alloc;
+
+        void operator()(typename Allocator::value_type* p) const noexcept
+        {
+            alloc.deallocate(p, 1);
+        }
+    };
 };
 
 }  // namespace pmr
-- 
2.43.0


From 52fc1461b6a746fbdbab5cd1c9f06c8e7d041d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:14 +0000
Subject: [PATCH 18/28] fix: self move assignment of MemoryResourceDeleter
 dropped the memory resource

---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 32aa38c..7b2e35f 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From 2e1eb1512401ac5e0d81a1ec491276b530d58663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:01 +0000
Subject: [PATCH 19/28] fix: failed reallocation released the buffer of the
 buffer memory resource

---
 .../cetl/pmr/buffer_memory_resource_delegate.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..bd8665e 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         return result;
     }
@@ -128,8 +131,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         else
         {
-- 
2.43.0


From e95542ee14adbc85985cb01f20830d427c9f9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:33 +0000
Subject: [PATCH 20/28] fix: buffer memory resource reallocated upstream memory
 beyond the configured limit

---
 include/cetl/pmr/buffer_memory_resource_delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index bd8665e..1fe09bf 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -137,7 +137,7 @@ private:
                 in_use_ = result;
             }
         }
-        else
+        else if (new_object_count <= upstream_max_size_bytes_)
         {
             result = upstream.reallocate(data, old_object_count, new_object_count, new_align);
         }
-- 
2.43.0


From d06407e16cd6e5bb336ffd89f50184bf7579e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:38 +0000
Subject: [PATCH 21/28] fix: misaligned control block of
 monotonic_buffer_resource

---
 include/cetl/pf17/memory_resource.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 2469c7c..64ff654 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -693,7 +693,10 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            // The control block is stored at the beginning of the buffer so it needs to be aligned too.
+            const std::size_t buffer_align = std::max(alignment, alignof(BufferControl));
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, buffer_align);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +704,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, buffer_align, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From 725133eafb661cb6fc5b2ebd3c81c03e6c8b2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:26 +0000
Subject: [PATCH 22/28] fix: monotonic_buffer_resource drained the upstream on
 requests that cannot be satisfied

---
 include/cetl/pf17/memory_resource.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 64ff654..4b51c94 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -681,17 +681,29 @@ protected:
     {
         void* result = do_allocate_from_current_buffer(size_bytes, alignment);
 
-        const std::size_t max_size_v = max_size();
+        const std::size_t max_buffer_size =
+            std::min(max_size(), std::numeric_limits<std::size_t>::max() - sizeof(BufferControl));
 
         while (nullptr == result)
         {
+            if ((alignment > max_buffer_size) || (size_bytes > (max_buffer_size - alignment)))
+            {
+                // No buffer could ever satisfy this request.
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#endif
+                break;
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
-                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
+                std::min(max_buffer_size,
+                         std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment}));
 
             // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            const std::size_t next_buffer_size =
+                grow_from_size + std::min(grow_from_size / 2U, max_buffer_size - grow_from_size);
 
             // The control block is stored at the beginning of the buffer so it needs to be aligned too.
             const std::size_t buffer_align = std::max(alignment, alignof(BufferControl));
-- 
2.43.0


From 4d3c2adb9f7a6ce3fece07fe7b975780eab6518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:47 +0000
Subject: [PATCH 23/28] fix: piecewise pair construction used arguments that
 are out of scope

---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 4b51c94..d58a3ba 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -405,7 +405,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::move(pmArgs));
+        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::tuple<PTArgsT&&...>{std::move(pmArgs)});
     }
 
     template <typename PairType, typename... PTArgsT>
@@ -414,7 +414,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::move(pmArgs), std::make_tuple(*this));
+        return std::tuple_cat(std::tuple<PTArgsT&&...>{std::move(pmArgs)}, std::make_tuple(*this));
     }
 
     template <typename U, typename... UArgsT>
-- 
2.43.0


From 2ca0f60d8f92e73be19228f5ed19540bd90f3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:15 +0000
Subject: [PATCH 24/28] fix: polymorphic_allocator reallocated too little for
 counts that cannot be represented

---
 include/cetl/pf17/memory_resource.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index d58a3ba..ebcb5d5 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -492,6 +492,10 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From ef3540a4e5a7d9f0b8f7180e36d3fdee36a1fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:57 +0000
Subject: [PATCH 25/28] fix: new/delete memory resource returned null on
 exhaustion instead of throwing

---
 include/cetl/pf17/sys/memory_resource.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..f7e602f 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,15 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        // Zero-sized allocation is allowed to return a null pointer.
+        if ((nullptr == result) && (0 != size_bytes))
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From bbb026587a78098bd97d6d00537fab172e4875d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:02 +0000
Subject: [PATCH 26/28] fix: new/delete memory resource ignored the alignment
 on reallocation

---
 include/cetl/pf17/sys/memory_resource.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index f7e602f..63b3b27 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -68,7 +68,10 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t))
+        {
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From 1258c37db0d84874a14a3488a71e466ae7356ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:40 +0000
Subject: [PATCH 27/28] fix: let exceptions from the contained type leave
 optional copies and moves

The intermediate base classes of optional declared their defaulted copy and
move operations noexcept. A contained type whose copy or move constructor or
copy assignment throws then ended the program instead of reporting the
exception to the caller. The exception specification is now deduced.
---
 include/cetl/pf17/optional.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..d599df9 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -192,8 +192,8 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From 821cf8d614d0c4328bd749c45596c5ef12318afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:06 +0000
Subject: [PATCH 28/28] fix: construct a pair by moving from a pair given as
 rvalue

The overload of polymorphic_allocator::construct for an rvalue pair had a
template parameter that cannot be deduced, so it was never chosen and the
members were copied instead of moved.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index ebcb5d5..9cb2f7e 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -573,7 +573,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0

