From 0b67b5d6561c75ba40cde22e4e3a3a41508e9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 01/35] fix: Keep rhs alive in IntrusiveSharedPtr copy
 assignment

Dropping the old reference first destroyed rhs when the old object owned it
(e.g., p = p->next).
---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..81853c7 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Take the new reference before dropping the old one because the old object
+    // may own rhs or the object rhs points to
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -112,16 +114,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Take the new reference before dropping the old one because the old object
+    // may own rhs or the object rhs points to
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
-- 
2.43.0


From 6945e01623875480dd4b45aed57ba51273843888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 02/35] fix: Make converting IntrusiveSharedPtr move assignment
 compile

---
 include/sleipnir/util/intrusive_shared_ptr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index 81853c7..18860a3 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -171,7 +171,9 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    // m_ptr and rhs.m_ptr have different types, so they can't be swapped directly
+    IntrusiveSharedPtr<T> ptr{std::move(rhs)};
+    std::swap(m_ptr, ptr.m_ptr);
 
     return *this;
   }
-- 
2.43.0


From 49ff6b6c2b66452e1d16adc93e6f63589eec60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 03/35] fix: Make function_ref assignment from a function_ref
 rebind instead of nest

---
 include/sleipnir/util/function_ref.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..2beb744 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -55,10 +55,12 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
-    obj_ = reinterpret_cast<void*>(std::addressof(f));
-    callback_ = [](void* obj, Args... args) {
+    obj_ = const_cast<void*>(
+        reinterpret_cast<const void*>(std::addressof(f)));
+    callback_ = [](void* obj, Args... args) -> R {
       return std::invoke(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
           std::forward<Args>(args)...);
-- 
2.43.0


From 3dfa0dda2bee31ddb7bca2a4578c0e50410f5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 04/35] fix: Avoid signed overflow in Slice of the largest
 index

---
 include/sleipnir/autodiff/slice.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/slice.hpp b/include/sleipnir/autodiff/slice.hpp
index be4f477..b37e556 100644
--- a/include/sleipnir/autodiff/slice.hpp
+++ b/include/sleipnir/autodiff/slice.hpp
@@ -47,7 +47,10 @@ class SLEIPNIR_DLLEXPORT Slice {
   // NOLINTNEXTLINE (google-explicit-constructor)
   constexpr Slice(int start) {
     this->start = start;
-    this->stop = (start == -1) ? std::numeric_limits<int>::max() : start + 1;
+    // Avoid UB for start + 1 if start is INT_MAX
+    this->stop = (start == -1 || start == std::numeric_limits<int>::max())
+                     ? std::numeric_limits<int>::max()
+                     : start + 1;
     this->step = 1;
   }
 
-- 
2.43.0


From 01bb1b2177b575451533dae7b1f81866608282ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 05/35] fix: Keep pool blocks of different sizes apart

Variables with different scalar types share one pool, whose blocks had the size
of whichever node was allocated first, so nodes of a larger type overlapped.
---
 include/sleipnir/util/pool.hpp | 49 +++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..fa21db3 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <gch/small_vector.hpp>
 
@@ -14,8 +15,8 @@ namespace slp {
 /// This class implements a pool memory resource.
 ///
 /// The pool allocates chunks of memory and splits them into blocks managed by a
-/// free list. Allocations return pointers from the free list, and deallocations
-/// return pointers to the free list.
+/// free list, one for each block size. Allocations return pointers from the free
+/// list, and deallocations return pointers to the free list.
 class SLEIPNIR_DLLEXPORT PoolResource {
  public:
   /// Constructs a default PoolResource.
@@ -48,24 +49,25 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& blocks = free_list(bytes);
+    if (blocks.empty()) {
+      add_chunk(bytes, blocks);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = blocks.back();
+    blocks.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +84,43 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t blocks = m_buffer.size() * blocks_per_chunk;
+    for (const auto& [bytes, free_list] : m_free_lists) {
+      blocks -= free_list.size();
+    }
+    return blocks;
   }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+  // Free lists by number of bytes in the block. Blocks of different sizes can't
+  // be interchanged.
+  gch::small_vector<std::pair<size_t, gch::small_vector<void*>>> m_free_lists;
   size_t blocks_per_chunk;
 
+  /// Returns the free list for blocks with the given number of bytes.
+  ///
+  /// @param bytes_per_block Number of bytes in the block.
+  /// @return The free list.
+  gch::small_vector<void*>& free_list(size_t bytes_per_block) {
+    for (auto& [bytes, free_list] : m_free_lists) {
+      if (bytes == bytes_per_block) {
+        return free_list;
+      }
+    }
+    return m_free_lists.emplace_back(bytes_per_block, gch::small_vector<void*>{})
+        .second;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  /// @param free_list The free list.
+  void add_chunk(size_t bytes_per_block, gch::small_vector<void*>& free_list) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From ad307099c2061fd39095c55f54fd844f51626efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 06/35] fix: Keep node pools alive after their thread ends

Expressions that outlived the thread that made them, or that were freed by
another thread, referred to memory of a destroyed pool.
---
 src/util/pool.cpp | 54 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/util/pool.cpp b/src/util/pool.cpp
index 1dcdac1..43450c9 100644
--- a/src/util/pool.cpp
+++ b/src/util/pool.cpp
@@ -2,7 +2,57 @@
 
 #include "sleipnir/util/pool.hpp"
 
+#include <mutex>
+
+#include <gch/small_vector.hpp>
+
+namespace {
+
+/// Pools of threads that have ended, for reuse by new threads.
+///
+/// Expressions can outlive the thread that made them (e.g., when they're moved
+/// to another thread or have static storage duration), so pools are never
+/// destroyed.
+struct IdlePools {
+  std::mutex mutex;
+  gch::small_vector<slp::PoolResource*> pools;
+};
+
+IdlePools& idle_pools() {
+  static auto idle = new IdlePools;
+  return *idle;
+}
+
+// This has no destructor, so it remains usable while the thread's other thread
+// local objects are destroyed
+thread_local slp::PoolResource* pool = nullptr;
+
+/// Makes the thread's pool available to new threads when the thread ends.
+struct PoolReturner {
+  ~PoolReturner() {
+    auto& idle = idle_pools();
+    std::scoped_lock lock{idle.mutex};
+    idle.pools.emplace_back(pool);
+  }
+};
+
+slp::PoolResource* acquire_pool() {
+  auto& idle = idle_pools();
+  std::scoped_lock lock{idle.mutex};
+  if (idle.pools.empty()) {
+    return new slp::PoolResource{16384};
+  }
+  auto result = idle.pools.back();
+  idle.pools.pop_back();
+  return result;
+}
+
+}  // namespace
+
 slp::PoolResource& slp::global_pool_resource() {
-  thread_local PoolResource pool{16384};
-  return pool;
+  if (pool == nullptr) {
+    pool = acquire_pool();
+    thread_local PoolReturner returner;
+  }
+  return *pool;
 }
-- 
2.43.0


From 875e56f642082a647f175d59f54281a60b1b3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 07/35] Add hook that lets a memory checker see free pool
 blocks

---
 include/sleipnir/util/pool.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index fa21db3..fb95baa 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -10,6 +10,10 @@
 
 #include "sleipnir/util/symbol_exports.hpp"
 
+#ifdef SLEIPNIR_VERIFY
+#include <sanitizer/asan_interface.h>
+#endif
+
 namespace slp {
 
 /// This class implements a pool memory resource.
@@ -56,6 +60,9 @@ class SLEIPNIR_DLLEXPORT PoolResource {
 
     auto ptr = blocks.back();
     blocks.pop_back();
+#ifdef SLEIPNIR_VERIFY
+    ASAN_UNPOISON_MEMORY_REGION(ptr, bytes);
+#endif
     return ptr;
   }
 
@@ -68,6 +75,9 @@ class SLEIPNIR_DLLEXPORT PoolResource {
       void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
     free_list(bytes).emplace_back(p);
+#ifdef SLEIPNIR_VERIFY
+    ASAN_POISON_MEMORY_REGION(p, bytes);
+#endif
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -122,6 +132,10 @@ class SLEIPNIR_DLLEXPORT PoolResource {
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
       free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
+#ifdef SLEIPNIR_VERIFY
+    ASAN_POISON_MEMORY_REGION(m_buffer.back().get(),
+                              bytes_per_block * blocks_per_chunk);
+#endif
   }
 };
 
-- 
2.43.0


From 12ec7e13d0c71ac3c5a90b7e7fb84f7382d65ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 08/35] fix: Make const VariableBlock segments and iterator
 postdecrement compile

The const overload of segment() returned a mutable view of a const view, and
const_iterator's postfix decrement copied itself into a mutable iterator.
---
 include/sleipnir/autodiff/variable_block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..d565d56 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -386,7 +386,7 @@ class VariableBlock : public SleipnirBase {
   /// @param offset The offset of the segment.
   /// @param length The length of the segment.
   /// @return A segment of the variable vector.
-  const VariableBlock<Mat> segment(int offset, int length) const {
+  const VariableBlock<const Mat> segment(int offset, int length) const {
     slp_assert(cols() == 1);
     slp_assert(offset >= 0 && offset < rows());
     slp_assert(length >= 0 && length <= rows() - offset);
@@ -707,7 +707,7 @@ class VariableBlock : public SleipnirBase {
     }
 
     constexpr const_iterator operator--(int) noexcept {
-      iterator retval = *this;
+      const_iterator retval = *this;
       --(*this);
       return retval;
     }
-- 
2.43.0


From 0ef0220da2fad48f8e80c15d4b68e6c9d607a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 09/35] fix: Handle operands that alias the result of matrix
 assignments

A *= A, A /= A[0, 0], v += v[reversed] and assignments between overlapping
blocks read elements that had already been overwritten.
---
 include/sleipnir/autodiff/variable_block.hpp  | 57 ++++++++++---------
 include/sleipnir/autodiff/variable_matrix.hpp | 39 ++++++-------
 2 files changed, 47 insertions(+), 49 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index d565d56..411bfaf 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -50,9 +50,12 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
+      // Copy the values first in case the blocks overlap
+      const Mat copy = values;
+
       for (int row = 0; row < rows(); ++row) {
         for (int col = 0; col < cols(); ++col) {
-          (*this)[row, col] = values[row, col];
+          (*this)[row, col] = copy[row, col];
         }
       }
     }
@@ -81,9 +84,12 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
+      // Copy the values first in case the blocks overlap
+      const Mat copy = values;
+
       for (int row = 0; row < rows(); ++row) {
         for (int col = 0; col < cols(); ++col) {
-          (*this)[row, col] = values[row, col];
+          (*this)[row, col] = copy[row, col];
         }
       }
     }
@@ -193,6 +199,11 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator=(const Mat& values) {
     slp_assert(rows() == values.rows() && cols() == values.cols());
 
+    // Copy the values first if this is a view of them
+    if (&values == m_mat) {
+      return *this = Mat{values};
+    }
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] = values[row, col];
@@ -436,18 +447,10 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
+    // Evaluate the product first in case rhs aliases this block
+    const Mat product = *this * rhs;
 
-    return *this;
+    return *this = product;
   }
 
   /// Compound matrix multiplication-assignment operator.
@@ -455,9 +458,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it's an element of this block
+    const auto scalar = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= scalar;
       }
     }
 
@@ -469,9 +475,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it's an element of this block
+    const auto scalar = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= scalar;
       }
     }
 
@@ -485,13 +494,10 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
-      }
-    }
+    // Evaluate the sum first in case rhs aliases this block
+    const Mat sum = *this + rhs;
 
-    return *this;
+    return *this = sum;
   }
 
   /// Compound addition-assignment operator.
@@ -517,13 +523,10 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
-      }
-    }
+    // Evaluate the difference first in case rhs aliases this block
+    const Mat difference = *this - rhs;
 
-    return *this;
+    return *this = difference;
   }
 
   /// Compound subtraction-assignment operator.
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..81fd64c 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,16 +643,9 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
+    // Evaluate the product first in case rhs aliases this matrix
+    const VariableMatrix product = *this * rhs;
+    std::ranges::copy(product, begin());
 
     return *this;
   }
@@ -662,9 +655,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it's an element of this matrix
+    const auto scalar = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= scalar;
       }
     }
 
@@ -733,9 +729,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it's an element of this matrix
+    const auto scalar = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= scalar;
       }
     }
 
@@ -809,11 +808,9 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
-      }
-    }
+    // Evaluate the sum first in case rhs aliases this matrix
+    const VariableMatrix sum = *this + rhs;
+    std::ranges::copy(sum, begin());
 
     return *this;
   }
@@ -901,11 +898,9 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
-      }
-    }
+    // Evaluate the difference first in case rhs aliases this matrix
+    const VariableMatrix difference = *this - rhs;
+    std::ranges::copy(difference, begin());
 
     return *this;
   }
-- 
2.43.0


From 747b8b710789256342a5143a0b4c149c9d57ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 10/35] fix: Make slicing a const view compile

A const VariableBlock of a mutable matrix couldn't be sliced further: the
result's type was deduced as a mutable view.
---
 include/sleipnir/autodiff/variable_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 411bfaf..4a50729 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -368,7 +368,7 @@ class VariableBlock : public SleipnirBase {
                                             int row_slice_length,
                                             Slice col_slice,
                                             int col_slice_length) const {
-    return VariableBlock{
+    return VariableBlock<const Mat>{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
          m_row_slice.start + row_slice.stop * m_row_slice.step,
-- 
2.43.0


From 48402a0cf4c159a037eddf0ac0d5f05a003e97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 11/35] fix: Solve 1x1 systems with more than one right-hand
 side

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 81fd64c..a4eb5d5 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1515,7 +1515,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From 6e104b9000cc2709869b673b90a28717d86a7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 12/35] fix: Reject nonfinite constraint violation in the step
 filter

---
 include/sleipnir/optimization/solver/util/filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..4261797 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -111,8 +111,10 @@ class Filter {
     using std::isfinite;
     using std::pow;
 
-    // Reject steps with nonfinite cost or constraint violation above maximum
+    // Reject steps with nonfinite cost or constraint violation, or constraint
+    // violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
       return false;
     }
-- 
2.43.0


From 5ac943a8d45984a15d1b6c0752c07fc44ade67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 13/35] fix: Estimate multipliers when constraint gradients are
 linearly dependent

The factorization of a singular matrix failed and the estimate was left
uninitialized.
---
 .../util/lagrange_multiplier_estimate.hpp     | 51 ++++++++++++++-----
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index b15962c..92129e0 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -6,14 +6,44 @@
 #include <utility>
 
 #include <Eigen/Core>
+#include <Eigen/OrderingMethods>
 #include <Eigen/SparseCholesky>
 #include <Eigen/SparseCore>
+#include <Eigen/SparseQR>
 #include <gch/small_vector.hpp>
 
 #include "sleipnir/optimization/solver/util/append_as_triplets.hpp"
 
 namespace slp {
 
+namespace detail {
+
+/// Returns an x that minimizes ‖Aᵀx − b‖₂.
+///
+/// @tparam Scalar Scalar type.
+/// @param A Transpose of the least-squares problem's matrix.
+/// @param b Right-hand side.
+template <typename Scalar>
+Eigen::Vector<Scalar, Eigen::Dynamic> solve_transposed_least_squares(
+    const Eigen::SparseMatrix<Scalar>& A,
+    const Eigen::Vector<Scalar, Eigen::Dynamic>& b) {
+  using SparseMatrix = Eigen::SparseMatrix<Scalar>;
+
+  Eigen::SimplicialLDLT<SparseMatrix> ldlt{A * A.transpose()};
+
+  if (ldlt.info() == Eigen::Success) {
+    return ldlt.solve(A * b);
+  }
+
+  // A's rows are linearly dependent, so AAᵀ is singular. Use a rank-revealing
+  // factorization instead.
+  SparseMatrix A_T = A.transpose();
+  return Eigen::SparseQR<SparseMatrix, Eigen::COLAMDOrdering<int>>{A_T}.solve(
+      b);
+}
+
+}  // namespace detail
+
 /// Lagrange multiplier estimates.
 ///
 /// @tparam Scalar Scalar type.
@@ -39,9 +69,7 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
   //   ∇f − Aₑᵀy = 0
   //   Aₑᵀy = ∇f
   //   y = (AₑAₑᵀ)⁻¹Aₑ∇f
-  return Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>>{A_e *
-                                                            A_e.transpose()}
-      .solve(A_e * g);
+  return detail::solve_transposed_least_squares<Scalar>(A_e, g);
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -94,18 +122,13 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   SparseMatrix A_hat{A_e.rows() + A_i.rows(), A_e.cols() + s.rows()};
   A_hat.setFromSortedTriplets(triplets.begin(), triplets.end());
 
-  // lhs = ÂÂᵀ
-  SparseMatrix lhs = A_hat * A_hat.transpose();
-
-  // rhs = Â[ ∇f]
-  //        [−μe]
-  DenseVector rhs_temp{g.rows() + s.rows()};
-  rhs_temp.segment(0, g.rows()) = g;
-  rhs_temp.segment(g.rows(), s.rows()).setConstant(-μ);
-  DenseVector rhs = A_hat * rhs_temp;
+  // rhs = [ ∇f]
+  //       [−μe]
+  DenseVector rhs{g.rows() + s.rows()};
+  rhs.segment(0, g.rows()) = g;
+  rhs.segment(g.rows(), s.rows()).setConstant(-μ);
 
-  Eigen::SimplicialLDLT<SparseMatrix> yz_estimator{lhs};
-  DenseVector sol = yz_estimator.solve(rhs);
+  DenseVector sol = detail::solve_transposed_least_squares<Scalar>(A_hat, rhs);
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
 
-- 
2.43.0


From 00193baca6e369798ec0bbe67a8006f1dee325f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 14/35] fix: Keep constraint curvature in feasibility
 restoration

SparseMatrix::resize() zeroes the matrix, so the restoration phase's
Lagrangian Hessian lacked the constraints' second derivatives.
---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..198c3e6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -228,7 +228,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -483,7 +483,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From 9c097047fdd123024d518fa92af7c40d9c02410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 15/35] fix: Ignore stored zeros when detecting bound
 constraints

A linear inequality whose variables cancel out, such as x - x + 1 >= 0,
failed an assertion, and x + y - y >= 1 wasn't recognized as a bound.
---
 .../optimization/solver/util/bounds.hpp       | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..476b53f 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -102,12 +102,22 @@ Bounds<Scalar> get_bounds(
         ExpressionType::LINEAR) {
       continue;
     }
-    const Eigen::SparseVector<Scalar>& row_A_i =
-        A_i.innerVector(constraint_index);
-    const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    // Find the gradient's nonzero values. The gradient may also store zeros for
+    // variables that cancel out (e.g., y in x + y − y).
+    int num_nonzeros = 0;
+    Eigen::Index decision_variable_index = 0;
+    Scalar constraint_coefficient(0);
+    for (typename Eigen::SparseMatrix<Scalar, Eigen::RowMajor>::InnerIterator
+             row_iter{A_i, static_cast<Eigen::Index>(constraint_index)};
+         row_iter; ++row_iter) {
+      if (row_iter.value() != Scalar(0)) {
+        ++num_nonzeros;
+        decision_variable_index = row_iter.index();
+        constraint_coefficient = row_iter.value();
+      }
+    }
+    if (num_nonzeros != 1) {
+      // Constraint isn't in exactly one variable and therefore not a bound.
       continue;
     }
 
@@ -119,11 +129,6 @@ Bounds<Scalar> get_bounds(
     // and a ≠ 0. The gradient of c is then aeᵢ (where eᵢ denotes the i-th basis
     // element), and c(0) = b. If c(x) ≥ 0, then since either a < 0 or a > 0, we
     // have either x ≤ -b/a or x ≥ -b/a, respectively. ∎
-    typename Eigen::SparseVector<Scalar>::InnerIterator row_iter(row_A_i);
-    const auto constraint_coefficient =
-        row_iter
-            .value();  // The nonzero value of the j-th constraint's gradient.
-    const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
     Scalar constraint_constant;
@@ -137,10 +142,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From 6288267bdc797058181c3cc1f75aa30d8ff18166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 16/35] fix: Keep slacks positive with bound projection

A variable with equal lower and upper bounds got a zero slack, so the
first factorization failed.
---
 include/sleipnir/optimization/solver/interior_point.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..0e8a93c 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -286,8 +286,9 @@ ExitStatus interior_point(
   }
 
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
-  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j
-  s = bound_constraint_mask.select(c_i, s);
+  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j, except where
+  // that isn't positive (e.g., the lower and upper bounds are equal)
+  s = (bound_constraint_mask && c_i.array() > Scalar(0)).select(c_i, s);
 #endif
 
   // Barrier parameter minimum
-- 
2.43.0


From 4bcc75535351fc30dab3a539052249efecdc6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 17/35] fix: don't report local infeasibility where restoration
 converged to a feasible point

---
 .../solver/util/feasibility_restoration.hpp   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 198c3e6..f43bad4 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -318,6 +318,13 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If the constraints hold where restoration converged, the problem isn't
+    // locally infeasible; the line search just couldn't make progress
+    if (matrices.c_e(x)
+            .cwiseQuotient(matrices.scaling.c_e)
+            .template lpNorm<Eigen::Infinity>() <= Scalar(options.tolerance)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
@@ -621,6 +628,19 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If the constraints hold where restoration converged, the problem isn't
+    // locally infeasible; the line search just couldn't make progress
+    if (matrices.c_e(x)
+                .cwiseQuotient(matrices.scaling.c_e)
+                .template lpNorm<Eigen::Infinity>() <=
+            Scalar(options.tolerance) &&
+        matrices.c_i(x)
+                .cwiseQuotient(matrices.scaling.c_i)
+                .cwiseMin(Scalar(0))
+                .template lpNorm<Eigen::Infinity>() <=
+            Scalar(options.tolerance)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
-- 
2.43.0


From 477ea7aa378c69d52b17e75e31cdd9bbd1decc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 18/35] fix: honour user stop, iteration limit and timeout
 during feasibility restoration

---
 .../optimization/solver/interior_point.hpp    | 21 +++++++++++++++---
 include/sleipnir/optimization/solver/sqp.hpp  | 22 +++++++++++++++----
 .../solver/util/feasibility_restoration.hpp   |  6 +++++
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 0e8a93c..4cef42f 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -730,11 +730,16 @@ ExitStatus interior_point(
 
       FilterEntry initial_entry{matrices.f(x), s, c_e, c_i, μ};
 
-      // Feasibility restoration phase
+      // Feasibility restoration phase. A stop requested by the user is told apart
+      // from the stop restoration itself requests when it's done.
+      bool user_requested_stop = false;
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -755,13 +760,23 @@ ExitStatus interior_point(
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
+      // Restoration only gets the time that's left
+      Options restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
       auto status =
-          feasibility_restoration<Scalar>(matrices, callbacks, options,
+          feasibility_restoration<Scalar>(matrices, callbacks,
+                                          restoration_options,
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
                                           bound_constraint_mask,
 #endif
                                           x, s, y, z, μ, iterations);
 
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..f3d06b4 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -512,11 +512,16 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
 
       FilterEntry initial_entry{matrices.f(x), c_e};
 
-      // Feasibility restoration phase
+      // Feasibility restoration phase. A stop requested by the user is told apart
+      // from the stop restoration itself requests when it's done.
+      bool user_requested_stop = false;
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -533,8 +538,17 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-      auto status = feasibility_restoration<Scalar>(matrices, callbacks,
-                                                    options, x, y, iterations);
+      // Restoration only gets the time that's left
+      Options restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
+      auto status = feasibility_restoration<Scalar>(
+          matrices, callbacks, restoration_options, x, y, iterations);
+
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
 
       if (status != ExitStatus::SUCCESS) {
         // Report failure
diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index f43bad4..945beff 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -326,6 +326,9 @@ ExitStatus feasibility_restoration(
       return ExitStatus::LINE_SEARCH_FAILED;
     }
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
@@ -642,6 +645,9 @@ ExitStatus feasibility_restoration(
       return ExitStatus::LINE_SEARCH_FAILED;
     }
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
-- 
2.43.0


From 3282a774b0de01183976f88ac20d0eee2bb689cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 19/35] fix: don't report problems with violated constant
 constraints as solved

---
 include/sleipnir/optimization/problem.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index ccff8b9..634ac84 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -309,6 +309,19 @@ class Problem {
         slp::println("\nInvoking no-op solver\n");
       }
 #endif
+      // No point satisfies a violated constant constraint
+      const Scalar tolerance(options.tolerance);
+      for (auto& constraint : m_equality_constraints) {
+        const Scalar c = constraint.value();
+        if (!(-tolerance <= c && c <= tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+      for (auto& constraint : m_inequality_constraints) {
+        if (!(constraint.value() >= -tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
       return ExitStatus::SUCCESS;
     }
 
-- 
2.43.0


From 956485a63d497a118eb1fdff56df3aee65021e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 20/35] fix: don't report small violations of constraints with
 small gradients as locally infeasible

---
 .../solver/util/is_locally_infeasible.hpp        | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
index 4b5b2cc..7d5a427 100644
--- a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
+++ b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
@@ -20,11 +20,13 @@ bool is_equality_locally_infeasible(
     const Eigen::Vector<Scalar, Eigen::Dynamic>& c_e) {
   // The equality constraints are locally infeasible if
   //
-  //   Aₑᵀcₑ → 0
+  //   Aₑᵀcₑ/‖cₑ‖ → 0
   //   ‖cₑ‖ > ε
   //
-  // See "Infeasibility detection" in section 6 of [3].
-  return A_e.rows() > 0 && (A_e.transpose() * c_e).norm() < Scalar(1e-6) &&
+  // See "Infeasibility detection" in section 6 of [3]. Aₑᵀcₑ is relative to ‖cₑ‖
+  // because otherwise, it's small for small violations in general.
+  return A_e.rows() > 0 &&
+         (A_e.transpose() * c_e).norm() < Scalar(1e-6) * c_e.norm() &&
          c_e.norm() > Scalar(1e-2);
 }
 
@@ -39,18 +41,20 @@ bool is_inequality_locally_infeasible(
     const Eigen::Vector<Scalar, Eigen::Dynamic>& c_i) {
   // The inequality constraints are locally infeasible if
   //
-  //   Aᵢᵀcᵢ⁺ → 0
+  //   Aᵢᵀcᵢ⁺/‖cᵢ⁺‖ → 0
   //   ‖cᵢ⁺‖ > ε
   //
   // where cᵢ⁺ = min(cᵢ, 0).
   //
-  // See "Infeasibility detection" in section 6 of [3].
+  // See "Infeasibility detection" in section 6 of [3]. Aᵢᵀcᵢ⁺ is relative to
+  // ‖cᵢ⁺‖ because otherwise, it's small for small violations in general.
   //
   // cᵢ⁺ is used instead of cᵢ⁻ from the paper to follow the convention that
   // feasible inequality constraints are ≥ 0.
   if (A_i.rows() > 0) {
     Eigen::Vector<Scalar, Eigen::Dynamic> c_i_plus = c_i.cwiseMin(Scalar(0));
-    if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&
+    if ((A_i.transpose() * c_i_plus).norm() <
+            Scalar(1e-6) * c_i_plus.norm() &&
         c_i_plus.norm() > Scalar(1e-6)) {
       return true;
     }
-- 
2.43.0


From 1b959346885a9dfa07eded734a1585cb9a507074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 21/35] fix: don't accept iterates with nonfinite constraints
 or derivatives as converged

---
 .../optimization/solver/util/kkt_error.hpp    | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/kkt_error.hpp b/include/sleipnir/optimization/solver/util/kkt_error.hpp
index 1e391ad..e2246cd 100644
--- a/include/sleipnir/optimization/solver/util/kkt_error.hpp
+++ b/include/sleipnir/optimization/solver/util/kkt_error.hpp
@@ -3,6 +3,8 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 #include <Eigen/Core>
 #include <Eigen/SparseCore>
@@ -21,6 +23,24 @@ enum class KKTErrorType {
   ONE_NORM
 };
 
+/// Returns the ∞-norm of v divided by scale, or infinity if either isn't finite.
+///
+/// Norms and maximums can drop NaNs, which would make an iterate with nonfinite
+/// constraints or derivatives look converged.
+///
+/// @tparam Scalar Scalar type.
+/// @param v The vector.
+/// @param scale The scale factor.
+template <typename Scalar>
+Scalar inf_norm(const Eigen::Vector<Scalar, Eigen::Dynamic>& v,
+                Scalar scale = Scalar(1)) {
+  using std::isfinite;
+
+  return v.allFinite() && isfinite(scale)
+             ? v.template lpNorm<Eigen::Infinity>() / scale
+             : std::numeric_limits<Scalar>::infinity();
+}
+
 /// Returns the KKT error for Newton's method.
 ///
 /// @tparam Scalar Scalar type.
@@ -33,7 +53,7 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g) {
   //   ∇f = 0
 
   if constexpr (T == KKTErrorType::INF_NORM_SCALED) {
-    return g.template lpNorm<Eigen::Infinity>();
+    return inf_norm(g);
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return g.template lpNorm<1>();
   }
@@ -68,8 +88,7 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     // ‖∇f − Aₑᵀy‖_∞ / s_d
     // ‖cₑ‖_∞
     return std::max(
-        {(g - A_e.transpose() * y).template lpNorm<Eigen::Infinity>() / s_d,
-         c_e.template lpNorm<Eigen::Infinity>()});
+        {inf_norm((g - A_e.transpose() * y).eval(), s_d), inf_norm(c_e)});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return (g - A_e.transpose() * y).template lpNorm<1>() +
            c_e.template lpNorm<1>();
@@ -127,12 +146,10 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     // ‖Sz − μe‖_∞ / s_c
     // ‖cₑ‖_∞
     // ‖cᵢ − s‖_∞
-    return std::max({(g - A_e.transpose() * y - A_i.transpose() * z)
-                             .template lpNorm<Eigen::Infinity>() /
-                         s_d,
-                     (S * z - μe).template lpNorm<Eigen::Infinity>() / s_c,
-                     c_e.template lpNorm<Eigen::Infinity>(),
-                     (c_i - s).template lpNorm<Eigen::Infinity>()});
+    return std::max(
+        {inf_norm((g - A_e.transpose() * y - A_i.transpose() * z).eval(), s_d),
+         inf_norm((S * z - μe).eval(), s_c), inf_norm(c_e),
+         inf_norm((c_i - s).eval())});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     const auto S = s.asDiagonal();
     const Eigen::Vector<Scalar, Eigen::Dynamic> μe =
-- 
2.43.0


From 020343f7d7afa486e092824211c24e0d291aafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 22/35] fix: check whether Newton's method factorization
 succeeded

---
 include/sleipnir/optimization/solver/newton.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..43c9d86 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -183,7 +183,9 @@ ExitStatus newton(
     // Solve the Newton-KKT system
     //
     // Hpˣ = −∇f
-    solver.compute(H);
+    if (solver.compute(H).info() != Eigen::Success) [[unlikely]] {
+      return ExitStatus::FACTORIZATION_FAILED;
+    }
 
     kkt_matrix_decomp_profiler.stop();
     ScopedProfiler kkt_system_solve_profiler{kkt_system_solve_prof};
-- 
2.43.0


From 4e872a5b331401e8062c682ae08c84db73f892c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 23/35] fix: report nonfinite initial guesses and constant
 costs

---
 include/sleipnir/optimization/problem.hpp               | 4 ++++
 include/sleipnir/optimization/solver/interior_point.hpp | 8 +++++---
 include/sleipnir/optimization/solver/newton.hpp         | 4 ++--
 include/sleipnir/optimization/solver/sqp.hpp            | 7 ++++---
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index 634ac84..dd37672 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -322,6 +322,10 @@ class Problem {
           return ExitStatus::GLOBALLY_INFEASIBLE;
         }
       }
+      using std::isfinite;
+      if (m_f && !isfinite(m_f.value().value())) {
+        return ExitStatus::NONFINITE_INITIAL_GUESS;
+      }
       return ExitStatus::SUCCESS;
     }
 
diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 4cef42f..39fb516 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -279,9 +279,11 @@ ExitStatus interior_point(
     return ExitStatus::TOO_FEW_DOFS;
   }
 
-  // Check whether initial guess has finite cost, constraints, and derivatives
-  if (!isfinite(f) || !all_finite(g) || !all_finite(H) || !c_e.allFinite() ||
-      !all_finite(A_e) || !c_i.allFinite() || !all_finite(A_i)) {
+  // Check whether initial guess is finite and has finite cost, constraints,
+  // and derivatives
+  if (!x.allFinite() || !isfinite(f) || !all_finite(g) || !all_finite(H) ||
+      !c_e.allFinite() || !all_finite(A_e) || !c_i.allFinite() ||
+      !all_finite(A_i)) {
     return ExitStatus::NONFINITE_INITIAL_GUESS;
   }
 
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 43c9d86..f1a6dcf 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -124,8 +124,8 @@ ExitStatus newton(
 
   Scalar trial_f;
 
-  // Check whether initial guess has finite cost and derivatives
-  if (!isfinite(f) || !all_finite(g) || !all_finite(H)) {
+  // Check whether initial guess is finite and has finite cost and derivatives
+  if (!x.allFinite() || !isfinite(f) || !all_finite(g) || !all_finite(H)) {
     return ExitStatus::NONFINITE_INITIAL_GUESS;
   }
 
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3d06b4..0aabe0e 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -213,9 +213,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     return ExitStatus::TOO_FEW_DOFS;
   }
 
-  // Check whether initial guess has finite cost, constraints, and derivatives
-  if (!isfinite(f) || !all_finite(g) || !all_finite(H) || !c_e.allFinite() ||
-      !all_finite(A_e)) {
+  // Check whether initial guess is finite and has finite cost, constraints,
+  // and derivatives
+  if (!x.allFinite() || !isfinite(f) || !all_finite(g) || !all_finite(H) ||
+      !c_e.allFinite() || !all_finite(A_e)) {
     return ExitStatus::NONFINITE_INITIAL_GUESS;
   }
 
-- 
2.43.0


From ad551cd85131a6319a831a0169d51862ec0a4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 24/35] fix: don't abort on bound constraints with infinite
 limits

---
 .../sleipnir/optimization/solver/util/bounds.hpp    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 476b53f..7aaa25f 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -144,13 +144,12 @@ Bounds<Scalar> get_bounds(
 
     using std::isfinite;
 
-    // We should always get a finite value when evaluating the constraint at
-    // x = 0 since the constraint is linear.
-    slp_assert(isfinite(constraint_constant));
-
-    // This is possible if the user has provided a starting point at which their
-    // problem is ill-defined.
-    slp_assert(isfinite(constraint_coefficient));
+    // A nonfinite constant (e.g., an infinite limit in the constraint) or
+    // coefficient doesn't give a usable bound. The solver will report that the
+    // constraint isn't finite at the initial guess.
+    if (!isfinite(constraint_constant) || !isfinite(constraint_coefficient)) {
+      continue;
+    }
 
     // Update bounds; we assume constraints of the form c(x) ≥ 0.
     auto& [lower_bound, upper_bound] =
-- 
2.43.0


From e8b2f2e30871a7b57edf9c89c25f9487c9bdcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 25/35] fix: keep inequality constraints feasible in all step
 types of the feasible interior-point method

---
 .../optimization/solver/interior_point.hpp    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 39fb516..ffa09fd 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -511,15 +511,18 @@ ExitStatus interior_point(
     const Scalar D_ϕ =
         g.transpose() * step.p_x - μ * s.cwiseInverse().dot(step.p_s);
 
+    // If the inequality constraints are all feasible, prevent them from becoming
+    // infeasible again.
+    //
+    // See equation (19.30) in [1].
+    const bool keep_feasible =
+        options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all();
+
     // Loop until a step is accepted
     while (1) {
       trial_x = x + α * step.p_x;
       trial_c_i = matrices.c_i(trial_x);
-      if (options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all()) {
-        // If the inequality constraints are all feasible, prevent them from
-        // becoming infeasible again.
-        //
-        // See equation (19.30) in [1].
+      if (keep_feasible) {
         trial_s = trial_c_i;
       } else {
         trial_s = s + α * step.p_s;
@@ -627,13 +630,17 @@ ExitStatus interior_point(
           α_z_soc = fraction_to_the_boundary_rule<Scalar>(z, soc_step.p_z, τ);
 
           trial_x = x + α_soc * soc_step.p_x;
-          trial_s = s + α_soc * soc_step.p_s;
+          trial_c_i = matrices.c_i(trial_x);
+          if (keep_feasible) {
+            trial_s = trial_c_i;
+          } else {
+            trial_s = s + α_soc * soc_step.p_s;
+          }
           trial_y = y + α_z_soc * soc_step.p_y;
           trial_z = z + α_z_soc * soc_step.p_z;
 
           trial_f = matrices.f(trial_x);
           trial_c_e = matrices.c_e(trial_x);
-          trial_c_i = matrices.c_i(trial_x);
 
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
@@ -696,20 +703,25 @@ ExitStatus interior_point(
             g, A_e, c_e, A_i, c_i, s, y, z, μ);
 
         trial_x = x + α_max * step.p_x;
-        trial_s = s + α_max * step.p_s;
+        trial_c_i = matrices.c_i(trial_x);
+        if (keep_feasible) {
+          trial_s = trial_c_i;
+        } else {
+          trial_s = s + α_max * step.p_s;
+        }
         trial_y = y + α_z * step.p_y;
         trial_z = z + α_z * step.p_z;
 
         trial_f = matrices.f(trial_x);
         trial_c_e = matrices.c_e(trial_x);
-        trial_c_i = matrices.c_i(trial_x);
 
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if ((!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all()) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
-- 
2.43.0


From 03c355ba4504065a47c5400df9bc365c1975c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 26/35] fix: prefer successful multistart solves over failed
 ones with a lower cost

---
 include/sleipnir/optimization/multistart.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..42a87a1 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
 #include <future>
 #include <span>
 
@@ -64,12 +65,16 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    bool a_success = a.status == ExitStatus::SUCCESS;
+    bool b_success = b.status == ExitStatus::SUCCESS;
+    if (a_success != b_success) {
+      return a_success;
     }
 
-    // Otherwise prioritize solution with lower cost
-    return a.cost < b.cost;
+    // Otherwise prioritize solution with lower cost. Any cost is better than
+    // NaN.
+    using std::isnan;
+    return a.cost < b.cost || (!isnan(a.cost) && isnan(b.cost));
   });
 }
 
-- 
2.43.0


From 7fefa53f28bc772ad4e5c3d298be7d7abf757cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 27/35] fix: make the initial state a decision variable in
 single-shooting OCPs

---
 include/sleipnir/optimization/ocp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 5e20b9b..c537dac 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -150,8 +150,10 @@ class OCP : public Problem<Scalar> {
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
       // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states
+      // depend on the input and previous states. The initial state doesn't
+      // depend on anything, so it's a decision variable.
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
+      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
-- 
2.43.0


From 6e45b6bfe16815f7bb343c2dcb9c392c3768b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 28/35] fix: list equality constraints violated in either
 direction in diagnostics

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..ece6023 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -95,7 +95,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -118,7 +118,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0


From 833080352cb69d70ea935ddf3ff55b8c09b54ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 29/35] fix: don't write feasibility restoration matrices to
 sparsity pattern files

---
 include/sleipnir/optimization/problem.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index dd37672..8cf073c 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -480,6 +480,10 @@ class Problem {
             num_decision_variables);
         iteration_callbacks.push_back(
             [&](const IterationInfo<Scalar>& info) -> bool {
+              // Feasibility restoration solves a differently sized problem
+              if (info.x.rows() != num_decision_variables) {
+                return false;
+              }
               H_spy->add(info.H);
               A_e_spy->add(info.A_e);
               return false;
@@ -603,6 +607,10 @@ class Problem {
             num_decision_variables);
         iteration_callbacks.push_back(
             [&](const IterationInfo<Scalar>& info) -> bool {
+              // Feasibility restoration solves a differently sized problem
+              if (info.x.rows() != num_decision_variables) {
+                return false;
+              }
               H_spy->add(info.H);
               A_e_spy->add(info.A_e);
               A_i_spy->add(info.A_i);
-- 
2.43.0


From acff4a2dcf2a5584d237eb3f563653a9e89a83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 30/35] fix: print unscaled cost, infeasibility, and constraint
 values in diagnostics

---
 .../optimization/solver/interior_point.hpp    | 26 ++++++++++++-------
 .../sleipnir/optimization/solver/newton.hpp   |  4 +--
 include/sleipnir/optimization/solver/sqp.hpp  | 21 +++++++++------
 .../solver/util/problem_scaling.hpp           | 18 +++++++++++++
 4 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index ffa09fd..8a6263a 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -273,7 +273,7 @@ ExitStatus interior_point(
   // Check for overconstrained problem
   if (matrices.num_equality_constraints > matrices.num_decision_variables) {
     if (options.diagnostics) {
-      print_too_few_dofs_error(c_e);
+      print_too_few_dofs_error(matrices.scaling.unscale_c_e(c_e));
     }
 
     return ExitStatus::TOO_FEW_DOFS;
@@ -389,7 +389,8 @@ ExitStatus interior_point(
     // Check for local equality constraint infeasibility
     if (is_equality_locally_infeasible(A_e, c_e)) {
       if (options.diagnostics) {
-        print_c_e_local_infeasibility_error(c_e);
+        print_c_e_local_infeasibility_error(
+            matrices.scaling.unscale_c_e(c_e));
       }
 
       return ExitStatus::LOCALLY_INFEASIBLE;
@@ -398,7 +399,8 @@ ExitStatus interior_point(
     // Check for local inequality constraint infeasibility
     if (is_inequality_locally_infeasible(A_i, c_i)) {
       if (options.diagnostics) {
-        print_c_i_local_infeasibility_error(c_i);
+        print_c_i_local_infeasibility_error(
+            matrices.scaling.unscale_c_i(c_i));
       }
 
       return ExitStatus::LOCALLY_INFEASIBLE;
@@ -591,10 +593,13 @@ ExitStatus interior_point(
                   unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
                       matrices.scaling, g, A_e, trial_c_e, A_i, trial_c_i,
                       trial_s, trial_y, trial_z, Scalar(0)),
-                  trial_f,
-                  trial_c_e.template lpNorm<1>() +
-                      (trial_c_i - trial_s).template lpNorm<1>(),
-                  trial_s.dot(trial_z), μ, solver.hessian_regularization(),
+                  trial_f / matrices.scaling.f,
+                  matrices.scaling.unscale_c_e(trial_c_e)
+                          .template lpNorm<1>() +
+                      matrices.scaling.unscale_c_i(trial_c_i - trial_s)
+                          .template lpNorm<1>(),
+                  trial_s.dot(trial_z) / matrices.scaling.f, μ,
+                  solver.hessian_regularization(),
                   solver.constraint_jacobian_regularization(),
                   std::max(soc_step.p_x.template lpNorm<Eigen::Infinity>(),
                            soc_step.p_s.template lpNorm<Eigen::Infinity>()),
@@ -868,9 +873,10 @@ ExitStatus interior_point(
           iterations,
           in_feasibility_restoration ? IterationType::FEASIBILITY_RESTORATION
                                      : IterationType::NORMAL,
-          inner_iter_profiler.current_duration(), E_0, f,
-          c_e.template lpNorm<1>() + (c_i - s).template lpNorm<1>(), s.dot(z),
-          μ, solver.hessian_regularization(),
+          inner_iter_profiler.current_duration(), E_0, f / matrices.scaling.f,
+          matrices.scaling.unscale_c_e(c_e).template lpNorm<1>() +
+              matrices.scaling.unscale_c_i(c_i - s).template lpNorm<1>(),
+          s.dot(z) / matrices.scaling.f, μ, solver.hessian_regularization(),
           solver.constraint_jacobian_regularization(),
           std::max(step.p_x.template lpNorm<Eigen::Infinity>(),
                    step.p_s.template lpNorm<Eigen::Infinity>()),
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index f1a6dcf..b2c85bd 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -268,8 +268,8 @@ ExitStatus newton(
     if (options.diagnostics) {
       print_iteration_diagnostics(
           iterations, IterationType::NORMAL,
-          inner_iter_profiler.current_duration(), E_0, f, Scalar(0), Scalar(0),
-          Scalar(0), solver.hessian_regularization(),
+          inner_iter_profiler.current_duration(), E_0, f / matrices.scaling.f,
+          Scalar(0), Scalar(0), Scalar(0), solver.hessian_regularization(),
           solver.constraint_jacobian_regularization(),
           p_x.template lpNorm<Eigen::Infinity>(), Scalar(1), α, α_max,
           α_reduction_factor, Scalar(1));
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 0aabe0e..8fb4bf2 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -207,7 +207,7 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
   // Check for overconstrained problem
   if (matrices.num_equality_constraints > matrices.num_decision_variables) {
     if (options.diagnostics) {
-      print_too_few_dofs_error(c_e);
+      print_too_few_dofs_error(matrices.scaling.unscale_c_e(c_e));
     }
 
     return ExitStatus::TOO_FEW_DOFS;
@@ -264,7 +264,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     // Check for local equality constraint infeasibility
     if (is_equality_locally_infeasible(A_e, c_e)) {
       if (options.diagnostics) {
-        print_c_e_local_infeasibility_error(c_e);
+        print_c_e_local_infeasibility_error(
+            matrices.scaling.unscale_c_e(c_e));
       }
 
       return ExitStatus::LOCALLY_INFEASIBLE;
@@ -399,10 +400,11 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
               print_iteration_diagnostics(
                   iterations, IterationType::SECOND_ORDER_CORRECTION,
                   soc_profiler.current_duration(),
-                  kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
-                      g, A_e, trial_c_e, trial_y),
-                  trial_f, trial_c_e.template lpNorm<1>(), Scalar(0), Scalar(0),
-                  solver.hessian_regularization(),
+                  unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
+                      matrices.scaling, g, A_e, trial_c_e, trial_y),
+                  trial_f / matrices.scaling.f,
+                  matrices.scaling.unscale_c_e(trial_c_e).template lpNorm<1>(),
+                  Scalar(0), Scalar(0), solver.hessian_regularization(),
                   solver.constraint_jacobian_regularization(),
                   soc_step.p_x.template lpNorm<Eigen::Infinity>(),
                   soc_step.p_y.template lpNorm<Eigen::Infinity>(), α_soc,
@@ -586,8 +588,11 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     if (options.diagnostics) {
       print_iteration_diagnostics(iterations, IterationType::NORMAL,
                                   inner_iter_profiler.current_duration(), E_0,
-                                  f, c_e.template lpNorm<1>(), Scalar(0),
-                                  Scalar(0), solver.hessian_regularization(),
+                                  f / matrices.scaling.f,
+                                  matrices.scaling.unscale_c_e(c_e)
+                                      .template lpNorm<1>(),
+                                  Scalar(0), Scalar(0),
+                                  solver.hessian_regularization(),
                                   solver.constraint_jacobian_regularization(),
                                   step.p_x.template lpNorm<Eigen::Infinity>(),
                                   step.p_y.template lpNorm<Eigen::Infinity>(),
diff --git a/include/sleipnir/optimization/solver/util/problem_scaling.hpp b/include/sleipnir/optimization/solver/util/problem_scaling.hpp
index 71e34da..1c060c7 100644
--- a/include/sleipnir/optimization/solver/util/problem_scaling.hpp
+++ b/include/sleipnir/optimization/solver/util/problem_scaling.hpp
@@ -112,6 +112,24 @@ struct ProblemScaling {
   bool is_identity() const {
     return f == Scalar(1) && c_e.size() == 0 && c_i.size() == 0;
   }
+
+  /// Removes the scaling from equality constraint values.
+  ///
+  /// @param scaled_c_e The scaled equality constraint values.
+  /// @return The unscaled equality constraint values.
+  DenseVector unscale_c_e(const DenseVector& scaled_c_e) const {
+    return c_e.size() == 0 ? scaled_c_e
+                           : DenseVector{scaled_c_e.cwiseQuotient(c_e)};
+  }
+
+  /// Removes the scaling from inequality constraint values.
+  ///
+  /// @param scaled_c_i The scaled inequality constraint values.
+  /// @return The unscaled inequality constraint values.
+  DenseVector unscale_c_i(const DenseVector& scaled_c_i) const {
+    return c_i.size() == 0 ? scaled_c_i
+                           : DenseVector{scaled_c_i.cwiseQuotient(c_i)};
+  }
 };
 
 }  // namespace slp
-- 
2.43.0


From 39276643e9f0b78aa79f89516c2e795d70208aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 31/35] fix: report the full step size when the line search
 falls back to the full step

---
 include/sleipnir/optimization/solver/interior_point.hpp | 2 ++
 include/sleipnir/optimization/solver/newton.hpp         | 1 +
 include/sleipnir/optimization/solver/sqp.hpp            | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 8a6263a..afb82e1 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -727,6 +727,8 @@ ExitStatus interior_point(
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if ((!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all()) &&
             next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index b2c85bd..a2c51ac 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -239,6 +239,7 @@ ExitStatus newton(
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           trial_f = matrices.f(trial_x);
+          α = α_max;
 
           // Accept step
           break;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 8fb4bf2..d58e4d8 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -498,6 +498,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
-- 
2.43.0


From 4c23396140264bb9d6afa0087cab7369b77215b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 32/35] fix: count no line search backtracks for accepted
 second-order corrections

---
 include/sleipnir/optimization/solver/interior_point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index afb82e1..ed0877e 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -605,7 +605,7 @@ ExitStatus interior_point(
                            soc_step.p_s.template lpNorm<Eigen::Infinity>()),
                   std::max(soc_step.p_y.template lpNorm<Eigen::Infinity>(),
                            soc_step.p_z.template lpNorm<Eigen::Infinity>()),
-                  α_soc, Scalar(1), α_reduction_factor, α_z_soc);
+                  α_soc, α_soc, α_reduction_factor, α_z_soc);
             }
           }};
 
@@ -652,6 +652,7 @@ ExitStatus interior_point(
           if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
             step = soc_step;
             α = α_soc;
+            α_max = α_soc;
             α_z = α_z_soc;
             step_acceptable = true;
             break;
-- 
2.43.0


From 39abf4c43bad7d29a9dd3c0da55e14f8b3ec86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 33/35] fix: support identity problem scaling in feasibility
 restoration

---
 .../solver/util/feasibility_restoration.hpp   | 21 +++++++++---------
 .../solver/util/problem_scaling.hpp           | 22 +++++++++++++++++++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 945beff..c591fea 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -177,7 +177,8 @@ ExitStatus feasibility_restoration(
   // Inherit the parent problem's scaling for the constraints, and use no
   // scaling for the cost function since it has changed. The new rows introduced
   // are not scaled.
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
+  const ProblemScaling<Scalar> fr_scaling{Scalar(1),
+                                          matrices.scaling.c_e_factors(num_eq),
                                           DenseVector::Ones(2 * num_eq)};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
@@ -238,7 +239,8 @@ ExitStatus feasibility_restoration(
         return d2f_dx2 + H_c;
       },
       [&](const DenseVector& x_p, [[maybe_unused]] const DenseVector& y_p,
-          [[maybe_unused]] const DenseVector& z_p) -> SparseMatrix {
+          [[maybe_unused]]
+          const DenseVector& z_p) -> SparseMatrix {
         return SparseMatrix{x_p.rows(), x_p.rows()};
       },
       [&](const DenseVector& x_p) -> DenseVector {
@@ -320,8 +322,7 @@ ExitStatus feasibility_restoration(
   } else if (status == ExitStatus::SUCCESS) {
     // If the constraints hold where restoration converged, the problem isn't
     // locally infeasible; the line search just couldn't make progress
-    if (matrices.c_e(x)
-            .cwiseQuotient(matrices.scaling.c_e)
+    if (matrices.scaling.unscale_c_e(matrices.c_e(x))
             .template lpNorm<Eigen::Infinity>() <= Scalar(options.tolerance)) {
       return ExitStatus::LINE_SEARCH_FAILED;
     }
@@ -434,10 +435,10 @@ ExitStatus feasibility_restoration(
   // scaling for the cost function since it has changed. The new rows introduced
   // are not scaled.
   DenseVector fr_d_c_i{c_i.rows() + 2 * num_eq + 2 * num_ineq};
-  fr_d_c_i << matrices.scaling.c_i,
+  fr_d_c_i << matrices.scaling.c_i_factors(num_ineq),
       DenseVector::Ones(2 * num_eq + 2 * num_ineq);
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
-                                          fr_d_c_i};
+  const ProblemScaling<Scalar> fr_scaling{
+      Scalar(1), matrices.scaling.c_e_factors(num_eq), fr_d_c_i};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
       static_cast<int>(fr_x.rows()),
@@ -633,12 +634,10 @@ ExitStatus feasibility_restoration(
   } else if (status == ExitStatus::SUCCESS) {
     // If the constraints hold where restoration converged, the problem isn't
     // locally infeasible; the line search just couldn't make progress
-    if (matrices.c_e(x)
-                .cwiseQuotient(matrices.scaling.c_e)
+    if (matrices.scaling.unscale_c_e(matrices.c_e(x))
                 .template lpNorm<Eigen::Infinity>() <=
             Scalar(options.tolerance) &&
-        matrices.c_i(x)
-                .cwiseQuotient(matrices.scaling.c_i)
+        matrices.scaling.unscale_c_i(matrices.c_i(x))
                 .cwiseMin(Scalar(0))
                 .template lpNorm<Eigen::Infinity>() <=
             Scalar(options.tolerance)) {
diff --git a/include/sleipnir/optimization/solver/util/problem_scaling.hpp b/include/sleipnir/optimization/solver/util/problem_scaling.hpp
index 1c060c7..eb892cb 100644
--- a/include/sleipnir/optimization/solver/util/problem_scaling.hpp
+++ b/include/sleipnir/optimization/solver/util/problem_scaling.hpp
@@ -113,6 +113,28 @@ struct ProblemScaling {
     return f == Scalar(1) && c_e.size() == 0 && c_i.size() == 0;
   }
 
+  /// Returns the equality constraint scaling factors, with an identity
+  /// scaling's ones written out.
+  ///
+  /// @param num_equality_constraints The number of equality constraints.
+  /// @return The equality constraint scaling factors.
+  DenseVector c_e_factors(int num_equality_constraints) const {
+    return c_e.size() == 0
+               ? DenseVector{DenseVector::Ones(num_equality_constraints)}
+               : c_e;
+  }
+
+  /// Returns the inequality constraint scaling factors, with an identity
+  /// scaling's ones written out.
+  ///
+  /// @param num_inequality_constraints The number of inequality constraints.
+  /// @return The inequality constraint scaling factors.
+  DenseVector c_i_factors(int num_inequality_constraints) const {
+    return c_i.size() == 0
+               ? DenseVector{DenseVector::Ones(num_inequality_constraints)}
+               : c_i;
+  }
+
   /// Removes the scaling from equality constraint values.
   ///
   /// @param scaled_c_e The scaled equality constraint values.
-- 
2.43.0


From 50c903ac62d35752f05748f26597325a7c5cdc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 34/35] fix: matrix exponential stays right when its matrix is
 assigned other values

---
 include/sleipnir/autodiff/variable_matrix.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index a4eb5d5..7c58a7f 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1116,6 +1116,14 @@ class VariableMatrix : public SleipnirBase {
     //
     //   exp(A) ≈ P / Q
     //   exp(A) ≈ (Qᵀ \ Pᵀ)ᵀ
+    //   exp(A) ≈ Q \ P
+    //
+    // because polynomials in A commute. The second form is preferred where
+    // solve() has a closed form, because LU fixes the pivots for A's current
+    // value, and they can be zero for others.
+    if (rows() >= 1 && rows() <= 4) {
+      return solve(Q, P);
+    }
     return VariableMatrix<Scalar>{
         Q.T().to_eigen().lu().solve(P.T().to_eigen()).transpose()};
   }
-- 
2.43.0


From b0652656d88afede35c802e40ea886fbcf1db437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 35/35] fix: allow for the cost's rounding error in the line
 search's Armijo condition

---
 include/sleipnir/optimization/solver/util/filter.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 4261797..fb6bc85 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include <Eigen/Core>
 #include <gch/small_vector.hpp>
@@ -108,6 +109,7 @@ class Filter {
   /// @return True if the given entry is acceptable to the filter.
   bool try_add(const FilterEntry<Scalar>& current_entry,
                const FilterEntry<Scalar>& trial_entry, Scalar D_ϕ, Scalar α) {
+    using std::abs;
     using std::isfinite;
     using std::pow;
 
@@ -127,9 +129,16 @@ class Filter {
         α * pow(-D_ϕ, s_ϕ) > pow(current_entry.constraint_violation, s_θ);
 
     // Armijo condition
+    //
+    // Near a solution, the required decrease is smaller than the rounding error
+    // of the costs, so the comparison allows for the latter.
     constexpr Scalar η_ϕ(1e-8);
+    Scalar rounding_error = Scalar(10) *
+                            std::numeric_limits<Scalar>::epsilon() *
+                            abs(current_entry.cost);
     bool armijo_condition =
-        trial_entry.cost <= current_entry.cost + η_ϕ * α * D_ϕ;
+        trial_entry.cost <=
+        current_entry.cost + η_ϕ * α * D_ϕ + rounding_error;
 
     // Sufficient decrease condition
     //
-- 
2.43.0

