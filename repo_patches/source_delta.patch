From 0b8b2dc2e3bddd85953806ef6b267a000ee0fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:02 +0000
Subject: [PATCH 01/14] fix: tell cached packed matrices with different source
 layouts apart

The cache of packed matrices was keyed by source pointer, packed layout and
zero point. Two source matrices that start at the same address but differ in
storage order or stride, or whose sizes round up to the same packed size, got
each other's packed data, and multiplications returned wrong results. The
source layout is now part of the key.
---
 ruy/prepacked_cache.cc         |  4 +++-
 ruy/prepacked_cache.h          | 24 +++++++++++++++++++-----
 ruy/prepare_packed_matrices.cc |  3 ++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..8a6c522 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -77,10 +77,12 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
-                                           PEMat* packed_matrix) {
+                                           PEMat* packed_matrix,
+                                           const MatLayout& src_layout) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
+  key.src_layout = src_layout;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..8f206d7 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -57,6 +57,11 @@ class PrepackedCache final {
   // small-scale block layout. In the past, we made the kernel function pointer
   // part of the cache key, but all that is relevant here is the packed layout.
   //
+  // The packed layout does not determine how the source data was read, however:
+  // matrices with a different storage order or stride, or with different sizes
+  // that round up to the same packed size, may start at the same address. So
+  // the source layout is part of the key as well.
+  //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
   // data would be reused with different zero_point values.
@@ -68,6 +73,8 @@ class PrepackedCache final {
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout.
+    MatLayout src_layout;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -75,8 +82,12 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data &&
+           a.src_layout.rows == b.src_layout.rows &&
+           a.src_layout.cols == b.src_layout.cols &&
+           a.src_layout.stride == b.src_layout.stride &&
+           a.src_layout.order == b.src_layout.order &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -112,10 +123,12 @@ class PrepackedCache final {
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
+  // `src_layout` is the source matrix layout.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src_data` pointer,
+  //    `src_layout` and the relevant fields of `packed_matrix`, particularly
+  //    its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -124,7 +137,8 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  Action Get(const void* src_data, PEMat* packed_matrix,
+             const MatLayout& src_layout = MatLayout());
 
  private:
   void EjectOne();
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..8b5fd4b 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,8 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side].data, &packed_matrix,
+                               params->src[side].layout);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 0c3f9bea8c2e631ac1c6b87e32a0fff79ef4a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:53 +0000
Subject: [PATCH 02/14] Let simulation builds choose the packed-matrix cache
 budget

---
 ruy/prepacked_cache.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index 8f206d7..bd36cf8 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -106,7 +106,12 @@ class PrepackedCache final {
     Timestamp timestamp;
   };
 
+#ifdef RUY_SIMULATED_CACHE_BUDGET
+  // Simulation builds choose the budget of each cache, to exercise ejection.
+  explicit PrepackedCache(int max_buffers_bytes = RUY_SIMULATED_CACHE_BUDGET())
+#else
   explicit PrepackedCache(int max_buffers_bytes = kDefaultMaxBuffersBytes)
+#endif
       : max_buffers_bytes_(max_buffers_bytes) {}
 
   ~PrepackedCache();
-- 
2.43.0


From 4490b85641a22ff551ccca1b899ce941c1c454b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:02 +0000
Subject: [PATCH 03/14] fix: subtract the bytes that were added when ejecting a
 cached float matrix

Only integer matrices have their sums buffer allocated and counted, but ejection
subtracted the size of the sums buffer for every matrix. The reported size drifted
below the real one and the cache grew past its budget.
---
 ruy/prepacked_cache.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 8a6c522..0087cb6 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -123,7 +123,10 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    buffers_bytes_ -= SumsBytes(packed_matrix);
+  }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From be2fcf48913d6173f55c6806e868f559e625aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:02 +0000
Subject: [PATCH 04/14] fix: do not hand out blocks of a buffer that could not
 be reallocated

When the reallocation in FreeAll failed, the allocator kept the new size with a
null buffer, and later requests returned small non-null addresses.
---
 ruy/allocator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..e55fc6b 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // If the system refused, there is no buffer to allocate from.
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From 3946f9a4c254b0f7e629860c8199c06f8f247dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:02 +0000
Subject: [PATCH 05/14] fix: keep track of a fallback block even if growing the
 list fails

If the list of fallback blocks could not grow, the block just allocated was
never freed and its size stayed in the running total.
---
 ruy/allocator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index e55fc6b..9ba5b32 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -36,12 +36,15 @@ void* Allocator::AllocateFast(std::ptrdiff_t num_bytes) {
 }
 
 void* Allocator::AllocateSlow(std::ptrdiff_t num_bytes) {
+  // Make the slot first: if that throws, there is no block to lose yet.
+  fallback_blocks_.push_back(nullptr);
   void* p = detail::SystemAlignedAlloc(num_bytes);
   if (p == nullptr) {
+    fallback_blocks_.pop_back();
     return nullptr;
   }
   fallback_blocks_total_size_ += num_bytes;
-  fallback_blocks_.push_back(p);
+  fallback_blocks_.back() = p;
   return p;
 }
 
-- 
2.43.0


From fc1ef046290f493e8c4d4cbd85f4618f4384363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:52 +0000
Subject: [PATCH 06/14] fix: do not eject the cached LHS of a multiplication to
 make room for its RHS

When the packed LHS and RHS together exceeded the cache budget, caching the RHS
freed the packed LHS, which the multiplication then read.
---
 ruy/prepacked_cache.cc         | 36 +++++++++++++++++++++-------------
 ruy/prepacked_cache.h          | 10 +++++++---
 ruy/prepare_packed_matrices.cc |  7 ++++++-
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 0087cb6..9b04807 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -78,7 +78,8 @@ PrepackedCache::~PrepackedCache() {
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
                                            PEMat* packed_matrix,
-                                           const MatLayout& src_layout) {
+                                           const MatLayout& src_layout,
+                                           const PEMat* in_use) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
@@ -96,32 +97,38 @@ PrepackedCache::Action PrepackedCache::Get(const void* src_data,
 
   // No existing entry found. Allocate new buffers now and insert in the cache.
   const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
-  EjectUntilRoomFor(new_bytes);
+  EjectUntilRoomFor(new_bytes, in_use);
   Entry entry{*packed_matrix, timestamp_++};
   cache_.emplace(key, entry);
   buffers_bytes_ += new_bytes;
   return Action::kInsertedNewEntry;
 }
 
-void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes) {
+void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes,
+                                       const PEMat* in_use) {
   profiler::ScopeLabel label("PrepackedCacheEjection");
   // While we are above the threshold of ejection, eject the LRU entry.
-  while (!cache_.empty() && buffers_bytes_ + new_bytes > max_buffers_bytes_) {
-    EjectOne();
+  while (buffers_bytes_ + new_bytes > max_buffers_bytes_) {
+    if (!EjectOne(in_use)) {
+      break;
+    }
   }
 }
 
-void PrepackedCache::EjectOne() {
-  auto oldest = cache_.begin();
-  Timestamp oldest_timestamp = oldest->second.timestamp;
-  {
-    for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
-      if (itr->second.timestamp < oldest_timestamp) {
-        oldest = itr;
-        oldest_timestamp = itr->second.timestamp;
-      }
+bool PrepackedCache::EjectOne(const PEMat* in_use) {
+  auto oldest = cache_.end();
+  for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
+    if (in_use && itr->second.packed_matrix.data == in_use->data) {
+      continue;
+    }
+    if (oldest == cache_.end() ||
+        itr->second.timestamp < oldest->second.timestamp) {
+      oldest = itr;
     }
   }
+  if (oldest == cache_.end()) {
+    return false;
+  }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
   buffers_bytes_ -= DataBytes(packed_matrix);
   if (!packed_matrix.sums_type.is_floating_point) {
@@ -129,6 +136,7 @@ void PrepackedCache::EjectOne() {
   }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
+  return true;
 }
 
 }  // namespace ruy
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index bd36cf8..94fe5e4 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -129,6 +129,8 @@ class PrepackedCache final {
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   // `src_layout` is the source matrix layout.
+  // `in_use` is the packed matrix of an entry that is still needed and so must
+  // not be ejected, or null.
   //
   // This method:
   // 1. Queries the cache for an entry matching the given `src_data` pointer,
@@ -143,11 +145,13 @@ class PrepackedCache final {
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
   Action Get(const void* src_data, PEMat* packed_matrix,
-             const MatLayout& src_layout = MatLayout());
+             const MatLayout& src_layout = MatLayout(),
+             const PEMat* in_use = nullptr);
 
  private:
-  void EjectOne();
-  void EjectUntilRoomFor(std::ptrdiff_t new_bytes);
+  // Returns false if there is no entry that may be ejected.
+  bool EjectOne(const PEMat* in_use);
+  void EjectUntilRoomFor(std::ptrdiff_t new_bytes, const PEMat* in_use);
 
   std::unordered_map<Key, Entry, KeyHash> cache_;
   const std::ptrdiff_t max_buffers_bytes_;
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 8b5fd4b..8081a4e 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,8 +74,13 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
+      // Making room for the RHS must not eject the LHS of this multiplication.
+      const PEMat* in_use =
+          side == Side::kRhs && params->is_prepacked[Side::kLhs]
+              ? &params->packed_matrix[Side::kLhs]
+              : nullptr;
       auto action = cache->Get(params->src[side].data, &packed_matrix,
-                               params->src[side].layout);
+                               params->src[side].layout, in_use);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From a157047e8d5839a77c64960125c8221c10470926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:37 +0000
Subject: [PATCH 07/14] fix: stop when a buffer for a cached packed matrix
 cannot be allocated

Without the sums buffer the packing code skipped the sums, and quantized
multiplications silently used uninitialized or missing zero-point corrections.
---
 ruy/prepacked_cache.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 9b04807..28fda82 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "ruy/prepacked_cache.h"
 
+#include "ruy/check_macros.h"
 #include "ruy/mat.h"
 #include "ruy/profiler/instrumentation.h"
 #include "ruy/system_aligned_alloc.h"
@@ -29,11 +30,13 @@ namespace {
 std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
   const std::ptrdiff_t data_bytes = DataBytes(*packed_matrix);
   packed_matrix->data = detail::SystemAlignedAlloc(data_bytes);
+  RUY_CHECK(packed_matrix->data != nullptr);
   std::ptrdiff_t sums_bytes = 0;
   if (!packed_matrix->sums_type.is_floating_point) {
     // Integer quantized matrices also need the `sums` buffer.
     sums_bytes = SumsBytes(*packed_matrix);
     packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
+    RUY_CHECK(packed_matrix->sums != nullptr);
   }
   return data_bytes + sums_bytes;
 }
-- 
2.43.0


From d20394c43fb0e234d7f1dd18ddfb7c6c8be27906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:00 +0000
Subject: [PATCH 08/14] fix: decide the tuning from a single look at the
 current CPU

Tuning resolution asked twice which kind of core the thread runs on. A thread
that moved from an X1 to an A55 core between the two questions was given the
generic tuning, which is right for neither core, for the next quarter second.
---
 ruy/cpuinfo.cc | 49 +++++++++++++++++++++++++++----------------------
 ruy/cpuinfo.h  |  3 +++
 ruy/tune.cc    |  6 ++++--
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/ruy/cpuinfo.cc b/ruy/cpuinfo.cc
index 5daee0b..80968ea 100644
--- a/ruy/cpuinfo.cc
+++ b/ruy/cpuinfo.cc
@@ -131,41 +131,32 @@ bool CpuInfo::AvxVnni() {
   return EnsureInitialized() && cpuinfo_has_x86_avx512vnni();
 }
 
-bool CpuInfo::CurrentCpuIsA55ish() {
+void CpuInfo::CurrentCpuKind(bool* is_a55ish, bool* is_x1) {
+  *is_a55ish = false;
+  *is_x1 = false;
   if (!EnsureInitialized()) {
-    return false;
+    return;
   }
 
   const struct cpuinfo_uarch_info* cpuinfo_uarch =
       cpuinfo_get_uarch(cpuinfo_get_current_uarch_index());
   if (!cpuinfo_uarch) {
-    return false;
+    return;
   }
   switch (cpuinfo_uarch->uarch) {
     case cpuinfo_uarch_cortex_a53:
     case cpuinfo_uarch_cortex_a55r0:
     case cpuinfo_uarch_cortex_a55:
-      return true;
+      *is_a55ish = true;
+      break;
+    case cpuinfo_uarch_cortex_x1:
+      *is_x1 = true;
+      break;
     default:
-      return false;
+      break;
   }
 }
 
-bool CpuInfo::CurrentCpuIsX1() {
-  if (!EnsureInitialized()) {
-    return false;
-  }
-  const struct cpuinfo_uarch_info* cpuinfo_uarch =
-      cpuinfo_get_uarch(cpuinfo_get_current_uarch_index());
-  if (!cpuinfo_uarch) {
-    return false;
-  }
-  if (cpuinfo_uarch->uarch == cpuinfo_uarch_cortex_x1) {
-    return true;
-  }
-  return false;
-}
-
 #else  // not defined RUY_HAVE_CPUINFO
 
 CpuInfo::~CpuInfo() {}
@@ -183,11 +174,25 @@ bool CpuInfo::Avx() { return false; }
 bool CpuInfo::Avx2Fma() { return false; }
 bool CpuInfo::Avx512() { return false; }
 bool CpuInfo::AvxVnni() { return false; }
-bool CpuInfo::CurrentCpuIsA55ish() { return false; }
-bool CpuInfo::CurrentCpuIsX1() { return false; }
+void CpuInfo::CurrentCpuKind(bool* is_a55ish, bool* is_x1) {
+  *is_a55ish = false;
+  *is_x1 = false;
+}
 
 #endif
 
+bool CpuInfo::CurrentCpuIsA55ish() {
+  bool is_a55ish, is_x1;
+  CurrentCpuKind(&is_a55ish, &is_x1);
+  return is_a55ish;
+}
+
+bool CpuInfo::CurrentCpuIsX1() {
+  bool is_a55ish, is_x1;
+  CurrentCpuKind(&is_a55ish, &is_x1);
+  return is_x1;
+}
+
 const CpuCacheParams& CpuInfo::CacheParams() {
   EnsureInitialized();
   // On failure, EnsureInitialized leaves dummy values in cache_params_.
diff --git a/ruy/cpuinfo.h b/ruy/cpuinfo.h
index 2c7bc6a..3a0c6bd 100644
--- a/ruy/cpuinfo.h
+++ b/ruy/cpuinfo.h
@@ -40,6 +40,9 @@ class CpuInfo final {
   const CpuCacheParams& CacheParams();
   bool CurrentCpuIsA55ish();
   bool CurrentCpuIsX1();
+  // Answers both of the above from a single look at the current CPU. Separate
+  // calls may be made on different CPUs if the thread migrates in between.
+  void CurrentCpuKind(bool* is_a55ish, bool* is_x1);
 
  private:
   enum class InitStatus {
diff --git a/ruy/tune.cc b/ruy/tune.cc
index 004bd5a..63131af 100644
--- a/ruy/tune.cc
+++ b/ruy/tune.cc
@@ -23,10 +23,12 @@ limitations under the License.
 namespace ruy {
 
 Tuning TuningResolver::ResolveNow(CpuInfo* cpuinfo) {
-  if (cpuinfo->CurrentCpuIsA55ish()) {
+  bool is_a55ish, is_x1;
+  cpuinfo->CurrentCpuKind(&is_a55ish, &is_x1);
+  if (is_a55ish) {
     return Tuning::kA55ish;
   }
-  if (cpuinfo->CurrentCpuIsX1()) {
+  if (is_x1) {
     return Tuning::kX1;
   }
   return Tuning::kGeneric;
-- 
2.43.0


From 84af170f86c63fc1b30d1230f8623518d9cda5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:51 +0000
Subject: [PATCH 09/14] fix: wait for worker threads when creating one fails or
 the caller's task throws

An exception from creating a thread left the busy count wrong and the threads
already created in their startup state: they missed the exit request, so
destroying the pool hung. An exception from the task on the calling thread
left the workers running on tasks that the caller then destroyed.
---
 ruy/thread_pool.cc | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/ruy/thread_pool.cc b/ruy/thread_pool.cc
index 2e2ca2c..72ac81d 100644
--- a/ruy/thread_pool.cc
+++ b/ruy/thread_pool.cc
@@ -211,6 +211,37 @@ class Thread {
   const Duration spin_duration_;
 };
 
+namespace {
+
+// Waits for busy threads at the end of a scope, also if that end is an
+// exception: the threads refer to data of the scope or of its callers.
+class ScopedWait {
+ public:
+  // If `unstarted_threads` is nonzero, that many of the threads counted as busy
+  // have not been started yet.
+  ScopedWait(BlockingCounter* count_busy_threads, Duration spin_duration,
+             int unstarted_threads = 0)
+      : count_busy_threads_(count_busy_threads),
+        spin_duration_(spin_duration),
+        unstarted_threads_(unstarted_threads) {}
+
+  ~ScopedWait() {
+    for (; unstarted_threads_ > 0; unstarted_threads_--) {
+      count_busy_threads_->DecrementCount();
+    }
+    count_busy_threads_->Wait(spin_duration_);
+  }
+
+  void ThreadStarted() { unstarted_threads_--; }
+
+ private:
+  BlockingCounter* const count_busy_threads_;
+  const Duration spin_duration_;
+  int unstarted_threads_;
+};
+
+}  // namespace
+
 void ThreadPool::ExecuteImpl(int task_count, int stride, Task* tasks) {
   RUY_TRACE_SCOPE_NAME("ThreadPool::Execute");
   RUY_DCHECK_GE(task_count, 1);
@@ -229,14 +260,14 @@ void ThreadPool::ExecuteImpl(int task_count, int stride, Task* tasks) {
     auto task_address = reinterpret_cast<std::uintptr_t>(tasks) + i * stride;
     threads_[i - 1]->StartWork(reinterpret_cast<Task*>(task_address));
   }
+  // Waits for the threads submitted above to finish.
+  ScopedWait wait(&count_busy_threads_, spin_duration_);
 
   RUY_TRACE_INFO(THREADPOOL_EXECUTE_STARTING_TASK_ZERO_ON_CUR_THREAD);
   // Execute task #0 immediately on the current thread.
   (tasks + 0)->Run();
 
   RUY_TRACE_INFO(THREADPOOL_EXECUTE_WAITING_FOR_THREADS);
-  // Wait for the threads submitted above to finish.
-  count_busy_threads_.Wait(spin_duration_);
 }
 
 // Ensures that the pool has at least the given count of threads.
@@ -248,11 +279,14 @@ void ThreadPool::CreateThreads(int threads_count) {
   if (threads_.size() >= unsigned_threads_count) {
     return;
   }
-  count_busy_threads_.Reset(threads_count - threads_.size());
+  threads_.reserve(unsigned_threads_count);
+  const int new_threads_count = threads_count - threads_.size();
+  count_busy_threads_.Reset(new_threads_count);
+  ScopedWait wait(&count_busy_threads_, spin_duration_, new_threads_count);
   while (threads_.size() < unsigned_threads_count) {
     threads_.push_back(new Thread(&count_busy_threads_, spin_duration_));
+    wait.ThreadStarted();
   }
-  count_busy_threads_.Wait(spin_duration_);
 }
 
 ThreadPool::~ThreadPool() {
-- 
2.43.0


From 36d4eac632e44c53d3d4a612526b7154f72626dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:51 +0000
Subject: [PATCH 10/14] fix: do not lose a thread's resources when their list
 can not grow

---
 ruy/ctx.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..6af6ee5 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -179,6 +179,9 @@ Path Ctx::SelectPath(Path compiled_paths) {
 
 void Ctx::EnsureThreadSpecificResources(int thread_count) {
   auto& resources = mutable_impl()->thread_specific_resources_;
+  if (thread_count > static_cast<int>(resources.size())) {
+    resources.reserve(thread_count);
+  }
   while (thread_count > static_cast<int>(resources.size())) {
     resources.emplace_back(new ThreadSpecificResource);
   }
-- 
2.43.0


From eb3be1c27f0a06a9ec4376a7abb04983a28fa182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:52 +0000
Subject: [PATCH 11/14] fix: get the tuning before making a cache entry to be
 packed

If getting the tuning ran out of memory, the cache kept an entry that was never
packed, and later multiplications silently used it.
---
 ruy/prepare_packed_matrices.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 8081a4e..ecc9417 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -79,12 +79,14 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
           side == Side::kRhs && params->is_prepacked[Side::kLhs]
               ? &params->packed_matrix[Side::kLhs]
               : nullptr;
+      // Get the tuning first: if this throws, there must not be a cache entry
+      // that was never packed.
+      const Tuning tuning = ctx->GetMainThreadTuning();
       auto action = cache->Get(params->src[side].data, &packed_matrix,
                                params->src[side].layout, in_use);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
-        params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-                        packed_matrix.layout.cols);
+        params->RunPack(side, tuning, 0, packed_matrix.layout.cols);
       }
       params->is_prepacked[side] = true;
     } else {
-- 
2.43.0


From ae8387e94d58a21fe4400d5e8498c14c655a49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:52 +0000
Subject: [PATCH 12/14] fix: make the cache entry before allocating its buffers

If making the entry ran out of memory, the buffers were lost.
---
 ruy/prepacked_cache.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 28fda82..8709599 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -24,6 +24,16 @@ namespace ruy {
 
 namespace {
 
+// Returns the size of the `data` and `sums` buffers of a PEMat.
+std::ptrdiff_t PackedBytes(const PEMat& packed_matrix) {
+  std::ptrdiff_t bytes = DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    // Integer quantized matrices also need the `sums` buffer.
+    bytes += SumsBytes(packed_matrix);
+  }
+  return bytes;
+}
+
 // Allocates the `data` and `sums` buffers, and sets the corresponding
 // pointer fields, in a PEMat whose other fields, particularly `layout`
 // and the runtime data types, are already populated.
@@ -99,11 +109,12 @@ PrepackedCache::Action PrepackedCache::Get(const void* src_data,
   }
 
   // No existing entry found. Allocate new buffers now and insert in the cache.
-  const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
-  EjectUntilRoomFor(new_bytes, in_use);
-  Entry entry{*packed_matrix, timestamp_++};
-  cache_.emplace(key, entry);
-  buffers_bytes_ += new_bytes;
+  EjectUntilRoomFor(PackedBytes(*packed_matrix), in_use);
+  // Make the entry first: if that throws, there are no buffers to lose yet.
+  Entry* entry =
+      &cache_.emplace(key, Entry{*packed_matrix, timestamp_++}).first->second;
+  buffers_bytes_ += AllocateBuffers(&entry->packed_matrix);
+  *packed_matrix = entry->packed_matrix;
   return Action::kInsertedNewEntry;
 }
 
-- 
2.43.0


From e11f422c363735c1ec6ebb16dbc9a5773cb74585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:31 +0000
Subject: [PATCH 13/14] fix: profiler: a failed sampling thread start no longer
 blocks later profiles

The running flag was set before the sampling thread was created. When the
thread could not be created, the constructor threw with the flag still set
and the next profiled scope aborted with "profiler already running".
---
 ruy/profiler/profiler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruy/profiler/profiler.cc b/ruy/profiler/profiler.cc
index ae3a2e2..276e516 100644
--- a/ruy/profiler/profiler.cc
+++ b/ruy/profiler/profiler.cc
@@ -54,10 +54,11 @@ void ScopeProfile::Start() {
       fprintf(stderr, "FATAL: profiler already running!\n");
       abort();
     }
+    finishing_ = false;
+    thread_.reset(new std::thread(&ScopeProfile::ThreadFunc, this));
+    // Only now: creating the thread may throw.
     detail::GlobalIsProfilerRunning() = true;
   }
-  finishing_ = false;
-  thread_.reset(new std::thread(&ScopeProfile::ThreadFunc, this));
 }
 
 void ScopeProfile::ThreadFunc() {
-- 
2.43.0


From bb8ebf14b6f25e51f9e56d094a5ba76175b3c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:39:58 +0000
Subject: [PATCH 14/14] fix: a performance counter reading that returns no data
 is not a count

A perf event file can read as end-of-file. Read() only compared the
result with -1, and so returned an uninitialized value as the count.
---
 ruy/pmu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/pmu.cc b/ruy/pmu.cc
index d1a60be..a192dce 100644
--- a/ruy/pmu.cc
+++ b/ruy/pmu.cc
@@ -84,7 +84,8 @@ class PerfEvent {
  private:
   std::int64_t Read() const {
     std::int64_t count;
-    RUY_CHECK_NE(read(fd_, &count, sizeof(count)), -1);
+    RUY_CHECK_EQ(read(fd_, &count, sizeof(count)),
+                 static_cast<ssize_t>(sizeof(count)));
     return count;
   }
   std::int64_t count_at_start_ = -1;
-- 
2.43.0

