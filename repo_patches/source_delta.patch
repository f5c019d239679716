From 4dea54eafe131d4a33bd5fb421e6459e8748023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 01/47] fix: QuickPool coalesce does not re-enter itself

The deallocate() inside do_coalesce() evaluated the coalesce heuristic again.
With a partially used chunk in the pool and a heuristic that stays true
(percent_releasable(50), blocks_releasable(1), ...) that recursed forever.
---
 src/umpire/strategy/QuickPool.cpp | 4 +++-
 src/umpire/strategy/QuickPool.hpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..cbba441 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -330,8 +330,9 @@ void QuickPool::coalesce() noexcept
 
 void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 {
-  if (m_size_map.size() > 1) {
+  if (m_size_map.size() > 1 && !m_is_coalescing) {
     UMPIRE_LOG(Debug, "()");
+    m_is_coalescing = true;
     release();
     std::size_t size_post{getActualSize()};
 
@@ -342,6 +343,7 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       auto ptr = allocate(alloc_size);
       deallocate(ptr, alloc_size);
     }
+    m_is_coalescing = false;
   }
 }
 
diff --git a/src/umpire/strategy/QuickPool.hpp b/src/umpire/strategy/QuickPool.hpp
index ee1b48e..c402199 100644
--- a/src/umpire/strategy/QuickPool.hpp
+++ b/src/umpire/strategy/QuickPool.hpp
@@ -170,6 +170,7 @@ class QuickPool : public AllocationStrategy, private mixins::AlignedAllocation {
   std::size_t m_releasable_bytes{0};
   std::size_t m_actual_highwatermark{0};
   bool m_is_destructing{false};
+  bool m_is_coalescing{false};
 };
 
 std::ostream& operator<<(std::ostream& out, umpire::strategy::PoolCoalesceHeuristic<QuickPool>&);
-- 
2.43.0


From 35df8bec639d05a8cd43c6901eca9ff82a631409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 02/47] fix: a pool coalesce that upstream cannot satisfy is
 not fatal

QuickPool::do_coalesce() and DynamicPoolList::coalesce() are noexcept and are
run from deallocate(): an out_of_memory_error from the upstream allocator while
re-allocating the coalesced chunk called std::terminate (QuickPool) or escaped
from deallocate() (DynamicPoolList). The chunks have been given back already, so
carry on without the coalesced one.
---
 src/umpire/strategy/DynamicSizePool.hpp | 8 ++++++--
 src/umpire/strategy/QuickPool.cpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..1da4f5d 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,8 +273,12 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
-    void *ptr = allocate(size);
-    deallocate(ptr);
+    try {
+      void *ptr = allocate(size);
+      deallocate(ptr);
+    } catch (...) {
+      UMPIRE_LOG(Error, "coalesce could not obtain " << size << " bytes, continuing without them.");
+    }
   }
 
  public:
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index cbba441..538e454 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -340,8 +340,12 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
-      deallocate(ptr, alloc_size);
+      try {
+        auto ptr = allocate(alloc_size);
+        deallocate(ptr, alloc_size);
+      } catch (...) {
+        UMPIRE_LOG(Error, "coalesce could not obtain " << alloc_size << " bytes, continuing without them.");
+      }
     }
     m_is_coalescing = false;
   }
-- 
2.43.0


From 8cbf13827587d279fdf9223b56ac014bf8cc9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:14 +0000
Subject: [PATCH 03/47] fix: FixedPool actual size shrinks when release returns
 memory

---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..7eb40df 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From c13a2f6b0ddb144dd43aa0548d4656b1e8faff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:14 +0000
Subject: [PATCH 04/47] fix: SlotPool keeps its slot when upstream cannot
 allocate

---
 src/umpire/strategy/SlotPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..cf4e3e1 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -60,8 +60,8 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
-- 
2.43.0


From b36f2cd6e0933e38f0c1d844987e2f7359d0251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 05/47] fix: AlignedAllocator refuses sizes whose padded size
 overflows

---
 src/umpire/strategy/AlignedAllocator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..4dcd428 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -31,6 +31,9 @@ AlignedAllocator::AlignedAllocator(const std::string& name, int id, Allocator al
 void* AlignedAllocator::allocate(std::size_t bytes)
 {
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
+  if (total_bytes < bytes) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("AlignedAllocator::allocate(size={}): size is too large.", bytes));
+  }
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
   uintptr_t ptr{reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes))};
-- 
2.43.0


From 1a26237e33fccda4069c01a4571f891346eb6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 06/47] fix: pools refuse sizes whose rounded size overflows

---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..e6822eb 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -10,6 +10,7 @@
 #include "umpire/util/allocation_statistics.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -17,12 +18,19 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
-  return size + (m_alignment - 1) - (size - 1) % m_alignment;
+  const std::size_t rounded{ size + (m_alignment - 1) - (size - 1) % m_alignment };
+  if (rounded < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("aligned_round_up(size={}): size is too large.", size));
+  }
+  return rounded;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
   std::size_t total_bytes{ size + m_alignment };
+  if (total_bytes < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("aligned_allocate(size={}): size is too large.", size));
+  }
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
   UMPIRE_POISON_MEMORY_REGION(m_allocator, reinterpret_cast<void*>(ptr), total_bytes);
-- 
2.43.0


From 8c3d15dede954649b9c99f4dcd1c4bb4c6a622aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 07/47] fix: SizeLimiter counts only successful allocations and
 cannot wrap around

---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..eb4630b 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit - m_total_size) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ptr = m_allocator->allocate_internal(bytes);
+  m_total_size += bytes;
+
+  return ptr;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From e15edcc717a3873c6759e9af5ccb1ea684130b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 08/47] fix: MonotonicAllocationStrategy keeps its size when a
 request is refused

---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..6b632d3 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
-  void* ret = static_cast<char*>(m_block) + m_size;
-  m_size += bytes;
-
-  if (m_size > m_capacity) {
+  if (bytes > m_capacity - m_size) {
     UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
+                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size + bytes, m_capacity));
   }
 
+  void* ret = static_cast<char*>(m_block) + m_size;
+  m_size += bytes;
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From b2ee367ba823f8123d122d8d7777480b55a66104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 09/47] fix: a failed internal allocation is not counted

---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..c94bd96 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr = allocate(bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr = allocate_named(name, bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From c0ca82b9f18b6a1f1113a5bb33836390d4a31df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 10/47] fix: NamingShim passes the size on when deallocating

---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From e66d74e96c0fb09e07a97b163df169131f52b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 11/47] fix: out_of_memory_error from a named allocation
 carries size and allocator

---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From 58e2825896470e8a25d2dfe242776f68304ecc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 12/47] fix: copy refuses to read past the end of the source
 allocation

---
 src/umpire/ResourceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..32ea2d2 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -405,6 +405,10 @@ void ResourceManager::copy(void* dst_ptr, void* src_ptr, std::size_t size)
         .tag("replay", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source of {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("Not enough space in destination to copy {} bytes into {} bytes", size, dst_size));
@@ -451,6 +455,10 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::copy(voi
         .tag("async", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source of {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));
   }
-- 
2.43.0


From 2a1fa735c8bec178266bc48251e54a6714371aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 13/47] fix: host reallocate keeps accounts and record right,
 also when realloc fails

---
 src/umpire/op/HostReallocateOperation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..a6fd05b 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -32,15 +32,19 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
     allocator.deallocate(current_ptr);
   } else {
-    auto old_record = ResourceManager::getInstance().deregisterAllocation(current_ptr);
+    auto strategy = current_allocation->strategy;
+    strategy::mixins::Inspector inspector;
+
+    auto old_record = inspector.deregisterAllocation(current_ptr, strategy);
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      inspector.registerAllocation(current_ptr, old_record.size, strategy, old_record.name);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    inspector.registerAllocation(*new_ptr, new_size, strategy);
   }
 }
 
-- 
2.43.0


From c4970fabf5dbb6ce8f27b118ce99cad5402c2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 14/47] fix: removeAlias refuses the name of a resource that is
 not created yet

---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 32ea2d2..09dc2be 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,7 +300,7 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
-  if (a->second->getName().compare(name) == 0) {
+  if (a == m_allocators_by_name.end() || a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
 
-- 
2.43.0


From 43e10b14b06ac44f25b6b352f7b4b9b8ec33768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 15/47] fix: an allocation that cannot be registered is not
 counted

---
 src/umpire/strategy/mixins/Inspector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/mixins/Inspector.cpp b/src/umpire/strategy/mixins/Inspector.cpp
index eca487a..768c557 100644
--- a/src/umpire/strategy/mixins/Inspector.cpp
+++ b/src/umpire/strategy/mixins/Inspector.cpp
@@ -16,26 +16,26 @@ namespace mixins {
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s)
 {
+  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s});
+
   s->m_current_size += size;
   s->m_allocation_count++;
 
   if (s->m_current_size > s->m_high_watermark) {
     s->m_high_watermark = s->m_current_size;
   }
-
-  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s});
 }
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s, const std::string& name)
 {
+  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
+
   s->m_current_size += size;
   s->m_allocation_count++;
 
   if (s->m_current_size > s->m_high_watermark) {
     s->m_high_watermark = s->m_current_size;
   }
-
-  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
 }
 
 util::AllocationRecord
-- 
2.43.0


From 0ab46d9c716ec76cd4551c4bd21fe258d9ca70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 16/47] fix: NullMemoryResource reads the size before erasing
 its entry

---
 src/umpire/resource/NullMemoryResource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 02de928..812fcdd 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -48,14 +48,14 @@ void NullMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   UMPIRE_LOG(Debug, "(ptr=" << ptr << ")");
 
   auto iter = m_size_map.find(ptr);
-  auto size = iter->second;
+  const std::size_t size{*iter->second};
 
   m_size_map.erase(ptr);
 
 #if !defined(_MSC_VER)
-  munmap(ptr, *size);
+  munmap(ptr, size);
 #else
-  VirtualFree(ptr, *size, MEM_RELEASE);
+  VirtualFree(ptr, size, MEM_RELEASE);
 #endif
 }
 
-- 
2.43.0


From e5a4f1be07a4f27572f30587dae84f636fe36621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:45 +0000
Subject: [PATCH 17/47] fix: FixedMallocPool keeps its free list inside the
 free objects

---
 src/umpire/util/FixedMallocPool.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..d65d670 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -40,7 +40,11 @@ FixedMallocPool::Pool::Pool(const std::size_t object_bytes, const std::size_t ob
 }
 
 FixedMallocPool::FixedMallocPool(const std::size_t object_bytes, const std::size_t objects_per_pool)
-    : m_obj_bytes(object_bytes), m_obj_per_pool(objects_per_pool), m_data_bytes(m_obj_bytes * m_obj_per_pool), m_pool()
+    // a free object holds the index of the next one
+    : m_obj_bytes(std::max(object_bytes, sizeof(unsigned int))),
+      m_obj_per_pool(objects_per_pool),
+      m_data_bytes(m_obj_bytes * m_obj_per_pool),
+      m_pool()
 {
   newPool();
 }
@@ -112,7 +116,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From e15bb73cf7b54b9a6c73224ca604034671ec7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 18/47] fix: MemoryMap iterators seek their own position before
 advancing

---
 src/umpire/util/MemoryMap.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..a9052ec 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -269,9 +269,9 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
-    // Seek m_array internal position
+  if (m_pair.first) {
+    // Seek m_array internal position. Another operation, or another iterator
+    // that was at this address before, may have moved it.
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
   m_map->m_last = judy_nxt(m_map->m_array);
-- 
2.43.0


From 30ab7a66dc88dd360964d882b1085d3dcc4ba538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 19/47] fix: judy_prv and judy_end find the entry of a
 last-byte radix node

---
 src/tpl/umpire/judy/judy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..b27b4cc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -905,7 +905,7 @@ JudySlot * judy_last( Judy * judy, JudySlot next, unsigned int off, unsigned int
                         next = inner[slot & 0x0F];
                         if( next ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 break;
                             }
@@ -1091,7 +1091,7 @@ JudySlot * judy_prv( Judy * judy ) {
                     if( inner ) {
                         if( inner[slot & 0x0F] ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 return judy_last( judy, inner[slot & 0x0F], off + 1, depth );
                             }
-- 
2.43.0


From ea45ec4b57e4314f251134c4046fc7572d859ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 20/47] fix: judy_slot does not find a key of zero bytes in an
 unused slot

---
 src/tpl/umpire/judy/judy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index b27b4cc..ec79f2f 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -520,7 +520,11 @@ JudySlot * judy_slot( Judy * judy, const unsigned char * buff, unsigned int max
                     // is this a leaf?
 
                     if( (!judy->depth && !( value & 0xFF )) || ( judy->depth && depth == judy->depth ) ) {
-                        return &node[-slot - 1];
+                        if( node[-slot - 1] ) {  // occupied?
+                            return &node[-slot - 1];
+                        } else {
+                            return NULL;
+                        }
                     }
 
                     next = node[-slot - 1];
-- 
2.43.0


From 66ae26baca0050e1317c34e721225f8537878558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 21/47] fix: MemoryMap insert of a const value reports whether
 it was added

---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index a9052ec..cdf048f 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From d4907e10a5b7d23d1d430a94adebb87249cf2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 22/47] fix: AllocationMap::size reads the count under the lock

---
 src/umpire/util/AllocationMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/util/AllocationMap.cpp b/src/umpire/util/AllocationMap.cpp
index 9b2008c..6f2facd 100644
--- a/src/umpire/util/AllocationMap.cpp
+++ b/src/umpire/util/AllocationMap.cpp
@@ -278,6 +278,8 @@ void AllocationMap::clear()
 
 std::size_t AllocationMap::size() const
 {
+  std::lock_guard<std::mutex> lock(m_mutex);
+
   return m_size;
 }
 
-- 
2.43.0


From aebb4bfbcb4ccde20d213919a8ac0aa60f534673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 23/47] fix: the shared zero-byte pool is used under a lock

---
 src/umpire/strategy/mixins/AllocateNull.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..d8e8acb 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/mixins/AllocateNull.hpp"
 
+#include <mutex>
+
 #include "umpire/ResourceManager.hpp"
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
@@ -14,6 +16,17 @@ namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+
+// All allocators share one zero-byte pool
+std::mutex& get_zero_byte_mutex()
+{
+  static std::mutex zero_byte_mutex;
+  return zero_byte_mutex;
+}
+
+} // namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -25,6 +38,8 @@ void* AllocateNull::allocateNull()
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(get_zero_byte_mutex());
+
   return m_zero_byte_pool->allocate(1);
 }
 
@@ -34,6 +49,8 @@ bool AllocateNull::deallocateNull(void* ptr)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(get_zero_byte_mutex());
+
   if (m_zero_byte_pool->pointerIsFromPool(ptr)) {
     m_zero_byte_pool->deallocate(ptr, 1);
     return true;
-- 
2.43.0


From 1f167380307287d8f7f2e256bac08e887a6bfb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 24/47] fix: shared memory refuses sizes that wrap around

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..a7c26b7 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -201,7 +201,9 @@ class HostSharedMemoryResource::impl {
     if (best != nullptr) {
       best->reference_count++;
     } else { // New allocation
-      findUsableBlock(best, prev, adjusted_size);
+      if (requested_size <= m_segment->segment_size) { // else adjusted_size may have wrapped around
+        findUsableBlock(best, prev, adjusted_size);
+      }
 
       if (best != nullptr) {
         // Split the free block
-- 
2.43.0


From 4a319b10de0e43a1f48e205af0fe4c73d5fb4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 25/47] fix: a shared memory segment that cannot be set up is
 not left behind

---
 .../resource/HostSharedMemoryResourceImpl.hpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index a7c26b7..7d227cb 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -89,13 +89,20 @@ class HostSharedMemoryResource::impl {
     }
 
     if (created) {
+      if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+        abandon_shared_memory_segment(created);
+        UMPIRE_ERROR(runtime_error,
+                     fmt::format("Shared memory segment \"{}\" of size {} is too small", m_segment_name, size));
+      }
+
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
+        abandon_shared_memory_segment(created);
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
 
-      map_shared_memory_segment();
+      map_shared_memory_segment(created);
 
       __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
 
@@ -145,7 +152,7 @@ class HostSharedMemoryResource::impl {
         std::this_thread::yield();
       }
 
-      map_shared_memory_segment();
+      map_shared_memory_segment(created);
 
       uint32_t value{__atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST)};
 
@@ -486,11 +493,21 @@ class HostSharedMemoryResource::impl {
     return rval;
   }
 
-  void map_shared_memory_segment()
+  // Nobody else can use a segment that could not be initialized
+  void abandon_shared_memory_segment(bool created)
+  {
+    if (created) {
+      shm_unlink(m_segment_name.c_str());
+    }
+    close(m_segment_fd);
+  }
+
+  void map_shared_memory_segment(bool created)
   {
     struct ::stat buf;
     if (0 != fstat(m_segment_fd, &buf)) {
       int err = errno;
+      abandon_shared_memory_segment(created);
       UMPIRE_ERROR(runtime_error,
                    fmt::format("Failed to obtain size of shared object \"{}\": {}", m_segment_name, strerror(err)));
     }
@@ -504,6 +521,7 @@ class HostSharedMemoryResource::impl {
 
     if (base == MAP_FAILED) {
       int err = errno;
+      abandon_shared_memory_segment(created);
       UMPIRE_ERROR(runtime_error, fmt::format("Failed to map shared object \"{}\": {}", m_segment_name, strerror(err)));
     }
 
-- 
2.43.0


From 667de908518a00fbb6c86e4496b97534cab9f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 26/47] fix: an OutputBuffer without streams has none

---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From ab2b005b400f0ed2769bcfe679f89336e0f6fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 27/47] fix: relative_fragmentation visits every pair of
 neighbouring records

---
 src/umpire/util/allocation_statistics.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..9822046 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -15,13 +15,12 @@ namespace util {
 
 float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
-  auto r1 = recs.begin();
-  auto r2 = recs.begin();
-  ++r2;
   std::size_t largest_free_space = 0;
   std::size_t total_free_space = 0;
-  while (r2 != recs.end()) {
-    const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
+  for (std::size_t i = 1; i < recs.size(); ++i) {
+    const auto& r1 = recs[i - 1];
+    const auto& r2 = recs[i];
+    const std::size_t free_space = reinterpret_cast<char*>(r2.ptr) - (reinterpret_cast<char*>(r1.ptr) + r1.size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
   }
-- 
2.43.0


From fd054df792f8f4d823c139790d46c312bd54e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 28/47] fix: a resource whose name is refused leaves no
 dangling allocator

---
 src/umpire/ResourceManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 09dc2be..f557368 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -155,6 +155,10 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     traits.granularity = MemoryResourceTraits::granularity_type::fine_grained;
   }
 
+  const bool is_default_resource{name.find("::") == std::string::npos};
+  const resource::MemoryResourceType type{is_default_resource ? resource::string_to_resource(name)
+                                                              : resource::MemoryResourceType::Unknown};
+
   std::unique_ptr<strategy::AllocationStrategy> allocator{registry.makeMemoryResource(name, getNextId(), traits)};
   allocator->setTracking(traits.tracking);
 
@@ -176,8 +180,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::") - 1)};
     m_allocators_by_name[base_name] = allocator.get();
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  if (is_default_resource) {
+    m_memory_resources[type] = allocator.get();
   }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
-- 
2.43.0


From abb3fcd95e82ec1cf3b89fec49eed5b02e6401e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 29/47] fix: TypedAllocator refuses counts whose size in bytes
 wraps around

---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..187e7e3 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} objects of {} bytes", size, sizeof(T)));
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From e3e633e5b031d3a844b3c8bead1e8ae74f485d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:02 +0000
Subject: [PATCH 30/47] fix: find_pointer_from_name refuses allocators that are
 not shared memory

---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..9f0d06f 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -214,7 +214,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From 9299904e142f16d923217f754072457b388cfd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 31/47] fix: FileMemoryResource closes a file it cannot size or
 map

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..4fbc7af 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -75,6 +75,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -86,6 +87,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From c6909fb100fe337c2f01069030155bd741cee10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 32/47] fix: FileMemoryResource forgets a mapping whose file
 cannot be removed

---
 src/umpire/resource/FileMemoryResource.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4fbc7af..635df60 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -124,13 +124,13 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   ::close(m_filefd[iter->second->first.c_str()]);
   m_filefd.erase(iter->second->first.c_str());
 #endif
-  // Remove File
-  if (remove(iter->second->first.c_str()) < 0) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("remove of file {} failed: {}", iter->second->first.c_str(), strerror(errno)));
-  }
   // Remove Information about file in m_size_map
+  const std::string file_name{iter->second->first};
   m_size_map.erase(iter->first);
+  // Remove File
+  if (remove(file_name.c_str()) < 0) {
+    UMPIRE_ERROR(runtime_error, fmt::format("remove of file {} failed: {}", file_name, strerror(errno)));
+  }
 }
 
 std::size_t FileMemoryResource::getCurrentSize() const noexcept
-- 
2.43.0


From 53ebe09d8afa020f8d36be17c5b9f5e62f322355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 33/47] fix: NullMemoryResource reports memory it cannot map

---
 src/umpire/resource/NullMemoryResource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 812fcdd..e354fe5 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -13,6 +13,7 @@
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 #if !defined(_MSC_VER)
 #include <sys/mman.h>
@@ -32,9 +33,14 @@ void* NullMemoryResource::allocate(std::size_t bytes)
 {
 #if !defined(_MSC_VER)
   void* ptr{mmap(NULL, bytes, PROT_NONE, (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE), -1, 0)};
+  const bool failed{ptr == MAP_FAILED};
 #else
   void* ptr{VirtualAlloc(NULL, bytes, MEM_RESERVE, PAGE_NOACCESS)};
+  const bool failed{ptr == NULL};
 #endif
+  if (failed) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("reserving {} bytes of address space failed", bytes));
+  }
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
 
-- 
2.43.0


From b6804bc75d7d8077bfe902ceec5bdfbdc573e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 34/47] fix: json_file_store opens its file whatever event
 comes first

---
 src/umpire/event/json_file_store.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..76d6a7b 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -38,6 +38,7 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -52,6 +53,7 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -66,6 +68,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From 9b210ccd277d0eb77f35b86bc88f65d04b4b1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 35/47] fix: json_file_store escapes the names of allocations

---
 src/umpire/event/json_file_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 76d6a7b..77d0053 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -57,11 +57,11 @@ void json_file_store::insert(const named_allocate& e)
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, nlohmann::json(e.name).dump().c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From a6afb3ad2732ce3f12cfbb50753c209c4be66f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 36/47] fix: SlotPool gives back slots in use with their real
 length

---
 src/umpire/strategy/SlotPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index cf4e3e1..864c3eb 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -35,7 +35,8 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      // The length of a slot in use is stored negated
+      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i] < 0 ? -m_lengths[i] : m_lengths[i]);
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
-- 
2.43.0


From 3be21673f60422ff8c504e15ede5bb28cf21eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 37/47] fix: NumaPolicy gives back memory it cannot bind

---
 src/umpire/strategy/NumaPolicy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/NumaPolicy.cpp b/src/umpire/strategy/NumaPolicy.cpp
index aaea75d..f6ddc24 100644
--- a/src/umpire/strategy/NumaPolicy.cpp
+++ b/src/umpire/strategy/NumaPolicy.cpp
@@ -48,7 +48,12 @@ void* NumaPolicy::allocate(std::size_t bytes)
 {
   void* ret = m_allocator->allocate_internal(bytes);
 
-  numa::move_to_node(ret, bytes, m_node);
+  try {
+    numa::move_to_node(ret, bytes, m_node);
+  } catch (...) {
+    m_allocator->deallocate_internal(ret, bytes);
+    throw;
+  }
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
-- 
2.43.0


From c48d79bdf31ee070d834fd275ed352ee08fa7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 38/47] fix: NUMA helpers free their masks when they fail

---
 src/umpire/util/numa.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/umpire/util/numa.cpp b/src/umpire/util/numa.cpp
index 474170f..031c303 100644
--- a/src/umpire/util/numa.cpp
+++ b/src/umpire/util/numa.cpp
@@ -39,13 +39,15 @@ void move_to_node(void* ptr, std::size_t bytes, int node)
   numa_bitmask_clearall(mask);
   numa_bitmask_setbit(mask, node);
 
-  if (mbind(ptr, bytes, MPOL_BIND, mask->maskp, mask->size + 1, MPOL_MF_MOVE | MPOL_MF_STRICT) != 0) {
+  const long ret = mbind(ptr, bytes, MPOL_BIND, mask->maskp, mask->size + 1, MPOL_MF_MOVE | MPOL_MF_STRICT);
+  const int err = errno;
+  numa_bitmask_free(mask);
+
+  if (ret != 0) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("numa::move_to_node error: mbind( ptr = {}, bytes = {}, node = {} ) failed: {}", ptr,
-                             bytes, node, strerror(errno)));
+                             bytes, node, strerror(err)));
   }
-
-  numa_bitmask_free(mask);
 }
 
 int get_location(void* ptr)
@@ -71,6 +73,7 @@ std::vector<int> get_host_nodes()
     if (numa_bitmask_isbitset(numa_all_nodes_ptr, i)) {
       // Check if this has CPUs
       if (numa_node_to_cpus(i, cpus) != 0) {
+        numa_free_cpumask(cpus);
         UMPIRE_ERROR(runtime_error, "Error getting CPU list for NUMA node.");
       }
 
@@ -99,6 +102,7 @@ std::vector<int> get_device_nodes()
     if (numa_bitmask_isbitset(numa_all_nodes_ptr, i)) {
       // Check if this has CPUs
       if (numa_node_to_cpus(i, cpus) != 0) {
+        numa_free_cpumask(cpus);
         UMPIRE_ERROR(runtime_error, "Error getting CPU list for NUMA node.");
       }
 
-- 
2.43.0


From 7fe77ea13cecfa9581654f99c5ab2d05d2e55028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 39/47] fix: a move to a NUMA node refuses offset pointers

---
 src/umpire/ResourceManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index f557368..772af1b 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -786,6 +786,10 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
     return ptr;
   }
 
+  if (ptr != alloc_record->ptr) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot move an offset ptr (ptr={}, base={})", ptr, alloc_record->ptr));
+  }
+
 #if defined(UMPIRE_ENABLE_NUMA)
   {
     auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
@@ -821,10 +825,6 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 #endif
 
-  if (ptr != alloc_record->ptr) {
-    UMPIRE_ERROR(runtime_error, fmt::format("Cannot move an offset ptr (ptr={}, base={})", ptr, alloc_record->ptr));
-  }
-
   void* dst_ptr{allocator.allocate(alloc_record->size)};
   copy(dst_ptr, ptr);
 
-- 
2.43.0


From 6d3c70c64d2a4bcfe419673f7b9d0b3c86eb7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 40/47] fix: sqlite_database takes texts with quotes and names
 of any length

---
 src/umpire/event/sqlite_database.cpp | 51 +++++++++++++++++++---------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/umpire/event/sqlite_database.cpp b/src/umpire/event/sqlite_database.cpp
index 8419d98..aeb30d8 100644
--- a/src/umpire/event/sqlite_database.cpp
+++ b/src/umpire/event/sqlite_database.cpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include "umpire/config.hpp"
 #include "umpire/event/event.hpp"
@@ -40,6 +41,24 @@ namespace event {
     }                                                                                                            \
   }
 
+namespace {
+
+// The statement that inserts a JSON text, with the quotes in it doubled as SQL demands
+std::string insert_statement(const std::string& json)
+{
+  std::string sql{"INSERT INTO EVENTS VALUES(json('"};
+  for (const char c : json) {
+    if (c == '\'') {
+      sql += c;
+    }
+    sql += c;
+  }
+  sql += "'));";
+  return sql;
+}
+
+} // namespace
+
 sqlite_database::sqlite_database(const std::string& name)
 {
   {
@@ -58,7 +77,7 @@ sqlite_database::sqlite_database(const std::string& name)
 void sqlite_database::insert(const event& e)
 {
   nlohmann::json json_event = e;
-  const std::string sql{"INSERT INTO EVENTS VALUES(json('" + json_event.dump() + "'));"};
+  const std::string sql{insert_statement(json_event.dump())};
   UMP_SQ3_EXE(m_database, sql.c_str(), NULL, 0);
 }
 
@@ -82,21 +101,21 @@ void sqlite_database::insert(const allocate& e)
 
 void sqlite_database::insert(const named_allocate& e)
 {
-  char buffer[512];
-
-  sprintf(buffer,
-          "INSERT INTO EVENTS VALUES(json('"
-          R"({"category":"operation","name":"named_allocate")"
-          R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
-          R"(,"tags":{"replay":"true"})"
-          R"(,"timestamp":%lld})"
-          "'));",
-          e.size, e.ref, e.ptr, e.name.c_str(),
-          static_cast<long long>(
-              std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
-
-  UMP_SQ3_EXE(m_database, buffer, NULL, 0);
+  const std::string name{nlohmann::json(e.name).dump()};
+  std::vector<char> buffer(512 + name.size());
+
+  snprintf(buffer.data(), buffer.size(),
+           R"({"category":"operation","name":"named_allocate")"
+           R"(,"numeric_args":{"size":%ld})"
+           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
+           R"(,"tags":{"replay":"true"})"
+           R"(,"timestamp":%lld})",
+           e.size, e.ref, e.ptr, name.c_str(),
+           static_cast<long long>(
+               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
+
+  const std::string sql{insert_statement(buffer.data())};
+  UMP_SQ3_EXE(m_database, sql.c_str(), NULL, 0);
 }
 
 void sqlite_database::insert(const deallocate& e)
-- 
2.43.0


From 227619500edb7d1bd94f917ef2a9b2c4281fe0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 41/47] fix: finalize_io is declared as it is defined

---
 src/umpire/util/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/io.hpp b/src/umpire/util/io.hpp
index 9a50504..579006a 100644
--- a/src/umpire/util/io.hpp
+++ b/src/umpire/util/io.hpp
@@ -41,7 +41,7 @@ void initialize_io(const bool enable_log);
  * \brief Counterpart of initialize_io that finalizes the streams and ensures that no live references to the buffers
  * of standard streams exist. Most users will not need to call this manually.
  */
-void finalize_io(const bool enable_log);
+void finalize_io();
 
 /*!
  * \brief Synchronize all stream buffers to their respective output sequences.
-- 
2.43.0


From 2a7f808aa6d8e04fc0ed43e990a9e7d6f165464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 42/47] fix: FixedPool and MixedPool report memory they cannot
 obtain when made

---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 7eb40df..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From 8e01ca49e33ac812a1908773c5e0e4ccb493697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 43/47] fix: FixedPool refuses objects whose total size
 overflows

---
 src/umpire/strategy/FixedPool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 4249ef3..fe94407 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -94,6 +94,10 @@ FixedPool::~FixedPool()
 
 void FixedPool::newPool()
 {
+  if (m_obj_per_pool != 0 && m_data_bytes / m_obj_per_pool != m_obj_bytes) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("FixedPool: {} objects of {} bytes are too large for a pool",
+                                                  m_obj_per_pool, m_obj_bytes));
+  }
   m_pool.emplace_back(m_strategy, m_obj_bytes, m_obj_per_pool, m_avail_bytes * sizeof(int));
   m_actual_bytes += m_avail_bytes + m_data_bytes;
 }
-- 
2.43.0


From 40fcaa1a2ef4a64b0da3b5aa3b8a3ea67f5c71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 44/47] fix: MixedPool takes any object sizes and multiplier

---
 src/umpire/strategy/MixedPool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index adba672..d57d831 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -37,7 +37,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
       m_allocator{allocator.getAllocationStrategy()}
 {
   std::size_t obj_size{smallest_fixed_obj_size};
-  while (obj_size <= largest_fixed_obj_size) {
+  while (obj_size != 0 && obj_size <= largest_fixed_obj_size) {
     const std::size_t obj_per_pool{std::min(64 * sizeof(int) * 8, max_initial_fixed_pool_size / obj_size)};
     if (obj_per_pool > 1) {
       m_fixed_pool.emplace_back(
@@ -46,6 +46,9 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
     } else {
       break;
     }
+    if (fixed_size_multiplier < 2 || obj_size > largest_fixed_obj_size / fixed_size_multiplier) {
+      break;
+    }
     obj_size *= fixed_size_multiplier;
   }
 
-- 
2.43.0


From e8e729385f084cc6a4fbdf895eac7714b0d1c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:34 +0000
Subject: [PATCH 45/47] fix: ThreadSafeAllocator also synchronizes the
 strategies built on it

---
 src/umpire/strategy/AllocationStrategy.hpp  |  6 +++---
 src/umpire/strategy/ThreadSafeAllocator.cpp | 18 ++++++++++++++++++
 src/umpire/strategy/ThreadSafeAllocator.hpp |  5 +++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.hpp b/src/umpire/strategy/AllocationStrategy.hpp
index 68495e7..930a0e7 100644
--- a/src/umpire/strategy/AllocationStrategy.hpp
+++ b/src/umpire/strategy/AllocationStrategy.hpp
@@ -45,11 +45,11 @@ class AllocationStrategy {
 
   virtual ~AllocationStrategy() = default;
 
-  void* allocate_internal(std::size_t bytes);
+  virtual void* allocate_internal(std::size_t bytes);
 
-  void* allocate_named_internal(const std::string& name, std::size_t bytes);
+  virtual void* allocate_named_internal(const std::string& name, std::size_t bytes);
 
-  void deallocate_internal(void* ptr, std::size_t size = 0);
+  virtual void deallocate_internal(void* ptr, std::size_t size = 0);
 
   /*!
    * \brief Release any and all unused memory held by this AllocationStrategy
diff --git a/src/umpire/strategy/ThreadSafeAllocator.cpp b/src/umpire/strategy/ThreadSafeAllocator.cpp
index 6c1aa98..af5a5ff 100644
--- a/src/umpire/strategy/ThreadSafeAllocator.cpp
+++ b/src/umpire/strategy/ThreadSafeAllocator.cpp
@@ -30,6 +30,24 @@ void ThreadSafeAllocator::deallocate(void* ptr, std::size_t size)
   m_allocator->deallocate_internal(ptr, size);
 }
 
+void* ThreadSafeAllocator::allocate_internal(std::size_t bytes)
+{
+  std::lock_guard<std::mutex> lock(m_mutex);
+  return AllocationStrategy::allocate_internal(bytes);
+}
+
+void* ThreadSafeAllocator::allocate_named_internal(const std::string& name, std::size_t bytes)
+{
+  std::lock_guard<std::mutex> lock(m_mutex);
+  return AllocationStrategy::allocate_named_internal(name, bytes);
+}
+
+void ThreadSafeAllocator::deallocate_internal(void* ptr, std::size_t size)
+{
+  std::lock_guard<std::mutex> lock(m_mutex);
+  AllocationStrategy::deallocate_internal(ptr, size);
+}
+
 Platform ThreadSafeAllocator::getPlatform() noexcept
 {
   return m_allocator->getPlatform();
diff --git a/src/umpire/strategy/ThreadSafeAllocator.hpp b/src/umpire/strategy/ThreadSafeAllocator.hpp
index 282d5e6..a286349 100644
--- a/src/umpire/strategy/ThreadSafeAllocator.hpp
+++ b/src/umpire/strategy/ThreadSafeAllocator.hpp
@@ -29,6 +29,11 @@ class ThreadSafeAllocator : public AllocationStrategy {
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
 
+  // Used by the strategies built on this allocator, which do not hold the mutex
+  void* allocate_internal(std::size_t bytes) override;
+  void* allocate_named_internal(const std::string& name, std::size_t bytes) override;
+  void deallocate_internal(void* ptr, std::size_t size) override;
+
   Platform getPlatform() noexcept override;
 
   MemoryResourceTraits getTraits() const noexcept override;
-- 
2.43.0


From f5fa34878a89cfd34a4a5b6d9723baba87fda8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:01 +0000
Subject: [PATCH 46/47] fix: DynamicPoolList's 100 percent heuristics look at
 the releasable memory

They asked whether the current size is 0, which is always so for a pool that
is not tracked: it was coalesced, live blocks and all, at every deallocation.
QuickPool compares the releasable with the actual size.
---
 src/umpire/strategy/DynamicPoolList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicPoolList.cpp b/src/umpire/strategy/DynamicPoolList.cpp
index 0dd48d5..fea41a1 100644
--- a/src/umpire/strategy/DynamicPoolList.cpp
+++ b/src/umpire/strategy/DynamicPoolList.cpp
@@ -160,7 +160,9 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable(int p
   if (percentage == 0) {
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
-    return [=](const strategy::DynamicPoolList& pool) { return pool.getCurrentSize() == 0 ? pool.getActualSize() : 0; };
+    return [=](const strategy::DynamicPoolList& pool) {
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getActualSize() : 0;
+    };
   } else {
     float f = (float)((float)percentage / (float)100.0);
     return [=](const strategy::DynamicPoolList& pool) {
@@ -182,7 +184,7 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable_hwm(i
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
     return [=](const strategy::DynamicPoolList& pool) {
-      return pool.getCurrentSize() == 0 ? pool.getAlignedHighwaterMark() : 0;
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getAlignedHighwaterMark() : 0;
     };
   } else {
     float f = (float)((float)percentage / (float)100.0);
-- 
2.43.0


From 04b3b418d467286ace0c05e557cb570abae7550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:01 +0000
Subject: [PATCH 47/47] fix: making a resource takes no name but its own

makeResource("HOST::0") also registered the resource as "HOS" (one character
too few), taking that name from whoever had it. Only DEVICE::0 has a second
name, DEVICE.
---
 src/umpire/ResourceManager.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 772af1b..aa84bad 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -176,9 +176,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
-  if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
-    m_allocators_by_name[base_name] = allocator.get();
+  if (name == "DEVICE::0") {
+    m_allocators_by_name["DEVICE"] = allocator.get();
   }
   if (is_default_resource) {
     m_memory_resources[type] = allocator.get();
-- 
2.43.0

