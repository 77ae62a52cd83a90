From 5b9c419faea490992c826574d720f8d452d33dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 01/40] fix: ChunkedList: construct items in place, never
 reference destructed or skip unwritten items

---
 redGrapes/util/chunked_list.hpp | 70 +++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..6df10ea 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -120,7 +120,9 @@ namespace redGrapes
              * iter_offset = 0 means this item exists
              * iter_offset = 1 means previous item exists
              * ...
+             * iter_offset = uninitialized means this item was not written yet
              */
+            static constexpr iter_offset_t uninitialized = std::numeric_limits<iter_offset_t>::max();
             std::atomic<iter_offset_t> iter_offset;
 
             /* counts the number of iterators pointing
@@ -132,20 +134,23 @@ namespace redGrapes
              * this item but as long as some iterators referencing
              * the already deleted item exist, the item data will
              * not be destructed.
+             * It is negative as long as there is no value, i.e. before
+             * initialization and after destruction.
              */
             std::atomic<refcount_t> refcount;
 
             Item()
                 // any item starts uninitialized
-                : iter_offset(1)
-                , refcount(0)
+                : iter_offset(uninitialized)
+                , refcount(-1)
                 , storage(TrivialInit_t{})
             {
             }
 
             ~Item()
             {
-                release<false>();
+                if(refcount.load() >= 0)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -157,9 +162,10 @@ namespace redGrapes
             T& operator=(T const& value)
             {
                 assert(iter_offset != 0);
-                assert(refcount == 0);
+                assert(refcount == -1);
 
-                storage.value = value;
+                new(&storage.value) T(value);
+                refcount = 0;
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
@@ -179,14 +185,18 @@ namespace redGrapes
             iter_offset_t acquire()
             {
                 iter_offset_t off = iter_offset.load();
-                refcount_t old_refcount = refcount.load();
-
-                if(off == 0 && old_refcount >= 0)
-                {
-                    old_refcount = refcount.fetch_add(1);
-                    off = iter_offset.load();
+                if(off == uninitialized)
+                    return 1;
+                if(off != 0)
+                    return off;
 
-                    if(old_refcount >= 0)
+                /* only take a reference as long as the item data is not
+                 * already destructed, so refcount never leaves the
+                 * destructed state again.
+                 */
+                refcount_t old_refcount = refcount.load();
+                while(old_refcount >= 0)
+                    if(refcount.compare_exchange_weak(old_refcount, old_refcount + 1))
                     {
                         /* The item data is not already destructed,
                          * but only when `iter_offset` is still set to `0`
@@ -194,22 +204,16 @@ namespace redGrapes
                          * In case `off > 0`, some thread already called `remove()`
                          * on this iterator position.
                          */
+                        off = iter_offset.load();
 
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
                         if(off != 0)
-                            --refcount;
+                            release();
+
+                        return off;
                     }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
-                }
 
-                return off;
+                // item data is destructed, so `iter_offset` was set by `remove()` before
+                return iter_offset.load();
             }
 
             /* decrement refcount and in case this
@@ -578,13 +582,21 @@ namespace redGrapes
                  */
 
                 // first elements just goes back one step to reach last element of previous chunk
-                if(pos.get_item_ptr() == pos.chunk->first_item)
-                    pos.item().iter_offset = 1;
+                iter_offset_t offset = 1;
 
-                // if we have a predecessor in this chunk, reuse their offset
-                else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                // if we have a predecessor in this chunk, reuse their offset,
+                // unless it was not written yet and thus must not be skipped
+                if(pos.get_item_ptr() != pos.chunk->first_item)
+                {
+                    iter_offset_t prev_offset = (pos.get_item_ptr() - 1)->iter_offset;
+                    if(prev_offset != Item::uninitialized)
+                        offset = prev_offset + 1;
+                }
 
+                // someone else might have removed this element concurrently
+                iter_offset_t exists = 0;
+                if(!pos.item().iter_offset.compare_exchange_strong(exists, offset))
+                    return;
 
                 /* TODO: scan in other direction for deleted items too,
                     and update their `iter_offset`
-- 
2.43.0


From edcec2d242655e537620f76d116b317dd18a9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 02/40] fix: ChunkedList: iteration must not end at an empty
 head chunk

---
 redGrapes/util/chunked_list.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 6df10ea..a099cbb 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -370,8 +370,16 @@ namespace redGrapes
              */
             void acquire_next_item()
             {
-                while(is_valid_idx())
+                while(chunk)
                 {
+                    if(!is_valid_idx())
+                    {
+                        // goto next chunk
+                        ++chunk;
+                        cur_item = chunk ? (uintptr_t) chunk->get_last_item() : 0;
+                        continue;
+                    }
+
                     iter_offset_t step = try_acquire();
                     if(step == 0)
                     {
@@ -386,16 +394,6 @@ namespace redGrapes
 
                         // jump to next valid item
                         cur_item = (uintptr_t) (get_item_ptr() - step);
-
-                        // goto next chunk if necessary
-                        if(!is_valid_idx())
-                        {
-                            ++chunk;
-                            if(chunk)
-                                cur_item = (uintptr_t) chunk->get_last_item();
-                            else
-                                cur_item = 0;
-                        }
                     }
                 }
 
-- 
2.43.0


From 4cbfb2327f36f5144e8f037f8b0f98da34852578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 03/40] fix: ChunkedList: copy constructor copies the elements

---
 redGrapes/util/chunked_list.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index a099cbb..d87fdc0 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -25,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <optional>
+#include <vector>
 
 namespace redGrapes
 {
@@ -505,7 +506,13 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            // iteration goes from back to front
+            std::vector<T> items;
+            for(auto it = other.crbegin(); it != other.crend(); ++it)
+                items.push_back(*it);
+
+            for(auto item = items.rbegin(); item != items.rend(); ++item)
+                push(*item);
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From 64c9b25ded15b86fe2fec6e7bd99c6b700d2d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 04/40] fix: AtomicList: read prev pointer atomically while
 iterating

---
 redGrapes/util/atomic_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..16b1841 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -240,7 +240,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From 23e039d4b80e48a19e61fd369fea5ad3a6ee4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 05/40] fix: AtomicList: give back the whole chunk on
 deallocation

---
 redGrapes/util/atomic_list.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 16b1841..eb9c01d 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -104,14 +104,19 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
@@ -122,7 +127,7 @@ namespace redGrapes
 
                 void deallocate(T* p, std::size_t n) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
-- 
2.43.0


From 6ee231edc8cd9dc7a77143eba0f77da6ad161c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 06/40] fix: BumpAllocator: count of allocations must not
 overflow

---
 redGrapes/memory/bump_allocator.cpp | 2 +-
 redGrapes/memory/bump_allocator.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..cff5fd1 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -67,7 +67,7 @@ namespace redGrapes
                 return Block::null();
         }
 
-        uint16_t BumpAllocator::deallocate(Block blk)
+        uint32_t BumpAllocator::deallocate(Block blk)
         {
             assert(owns(blk));
             return count.fetch_sub(1);
diff --git a/redGrapes/memory/bump_allocator.hpp b/redGrapes/memory/bump_allocator.hpp
index f6aa939..792a4a4 100644
--- a/redGrapes/memory/bump_allocator.hpp
+++ b/redGrapes/memory/bump_allocator.hpp
@@ -55,11 +55,11 @@ namespace redGrapes
             /*! @return how many active allocations remain,
              * if it returns 0, this allocator needs to be reset.
              */
-            uint16_t deallocate(Block blk);
+            uint32_t deallocate(Block blk);
 
         private:
             //! number of active allocations
-            std::atomic<uint16_t> count;
+            std::atomic<uint32_t> count;
 
             //! pointer to the upper-limit of the next allocation
             std::atomic<uintptr_t> next_addr;
-- 
2.43.0


From aca9ebf99350a64f5070a35de8fb179d6ba7c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 07/40] fix: ChunkedBumpAlloc: refuse or satisfy every request,
 chunks have room for chunk_size bytes

---
 redGrapes/memory/chunked_bump_alloc.hpp | 8 +++-----
 redGrapes/util/atomic_list.hpp          | 4 ++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..edca957 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -52,7 +52,7 @@ namespace redGrapes
 
             ChunkedBumpAlloc(Alloc&& alloc, size_t chunk_size = REDGRAPES_ALLOC_CHUNKSIZE)
                 : chunk_size(chunk_size)
-                , bump_allocators(std::move(alloc), chunk_size)
+                , bump_allocators(std::move(alloc), chunk_size + sizeof(BumpAllocator))
             {
             }
 
@@ -84,9 +84,7 @@ namespace redGrapes
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
                 size_t alloc_size = roundup_to_poweroftwo(n);
 
-                size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
-
-                if(alloc_size <= chunk_capacity)
+                if(n <= chunk_size && alloc_size <= chunk_size)
                 {
                     Block blk = Block::null();
 
@@ -116,7 +114,7 @@ namespace redGrapes
                     spdlog::error(
                         "ChunkedBumpAlloc: requested allocation of {} bytes exceeds chunk capacity of {} bytes",
                         alloc_size,
-                        chunk_capacity);
+                        chunk_size);
                     return Block::null();
                 }
             }
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index eb9c01d..6da7a1b 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -179,7 +179,7 @@ namespace redGrapes
                 // this block will contain the Item-data of ItemControlBlock
                 memory::Block blk{
                     .ptr = (uintptr_t) chunk_alloc.ptr + get_controlblock_size(),
-                    .len = chunk_capacity - get_controlblock_size()};
+                    .len = chunk_capacity};
 
                 return append_item(std::allocate_shared<ItemControlBlock>(chunk_alloc, blk));
             }
@@ -196,7 +196,7 @@ namespace redGrapes
                 // this block will contain the Item-data of ItemControlBlock
                 memory::Block blk{
                     .ptr = (uintptr_t) chunk_alloc.ptr + get_controlblock_size(),
-                    .len = chunk_capacity - get_controlblock_size()};
+                    .len = chunk_capacity};
 
                 auto sharedChunk = std::allocate_shared<ItemControlBlock>(chunk_alloc, blk);
                 return try_append_first_item(std::move(sharedChunk));
-- 
2.43.0


From b1b1e065650939527dff8f177b9df6fc9e8e8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 08/40] fix: ChunkedBumpAlloc: give empty chunks back which
 were not full at their last deallocation

---
 redGrapes/memory/bump_allocator.cpp     |  8 +++++---
 redGrapes/memory/chunked_bump_alloc.hpp | 10 +++++++--
 redGrapes/util/atomic_list.hpp          | 27 +++++++++++++++++--------
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index cff5fd1..573b96e 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,14 +57,16 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            // count first, so this chunk is not considered empty in the meantime
+            count++;
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
             else
+            {
+                count--;
                 return Block::null();
+            }
         }
 
         uint32_t BumpAllocator::deallocate(Block blk)
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index edca957..0bc30f7 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -99,11 +99,17 @@ namespace redGrapes
 
                             // chunk is full, create a new one
                             if(!blk)
-                                bump_allocators.allocate_item();
+                            {
+                                // nobody will deallocate from it anymore
+                                if(chunk->empty())
+                                    bump_allocators.erase(chunk);
+
+                                bump_allocators.try_allocate_item(chunk.c);
+                            }
                         }
                         // no chunk exists, create a new one
                         else
-                            bump_allocators.allocate_item();
+                            bump_allocators.try_allocate_first_item();
                     }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 6da7a1b..0b2bd0b 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -190,7 +190,17 @@ namespace redGrapes
              */
             bool try_allocate_first_item()
             {
-                TRACE_EVENT("Allocator", "AtomicList::allocate_first_item()");
+                return try_allocate_item(nullptr);
+            }
+
+            /** allocate a new item if `expected_head` is still the head of the list
+             *
+             * If more than one thread tries to add the successor of `expected_head`, only one thread will
+             * successfully add an item.
+             */
+            bool try_allocate_item(std::shared_ptr<ItemControlBlock> expected_head)
+            {
+                TRACE_EVENT("Allocator", "AtomicList::try_allocate_item()");
                 StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
 
                 // this block will contain the Item-data of ItemControlBlock
@@ -199,7 +209,7 @@ namespace redGrapes
                     .len = chunk_capacity};
 
                 auto sharedChunk = std::allocate_shared<ItemControlBlock>(chunk_alloc, blk);
-                return try_append_first_item(std::move(sharedChunk));
+                return try_append_item(expected_head, std::move(sharedChunk));
             }
 
             /** @} */
@@ -310,14 +320,15 @@ namespace redGrapes
                 return MutBackwardIterator{old_head};
             }
 
-            // append the first head item if not already exists
-            bool try_append_first_item(std::shared_ptr<ItemControlBlock> new_head)
+            // append the new head item if `expected` is still the current head
+            bool try_append_item(
+                std::shared_ptr<ItemControlBlock> expected,
+                std::shared_ptr<ItemControlBlock> new_head)
             {
-                TRACE_EVENT("Allocator", "AtomicList::append_first_item()");
+                TRACE_EVENT("Allocator", "AtomicList::try_append_item()");
 
-                std::shared_ptr<ItemControlBlock> expected(nullptr);
-                std::shared_ptr<ItemControlBlock> const& desired = new_head;
-                return std::atomic_compare_exchange_strong<ItemControlBlock>(&head, &expected, desired);
+                new_head->prev = expected;
+                return std::atomic_compare_exchange_strong<ItemControlBlock>(&head, &expected, new_head);
             }
         };
 
-- 
2.43.0


From 25075f4038e7a2590472f7c355ded249cd931d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 09/40] fix: report failed allocations instead of using a null
 block

---
 redGrapes/memory/allocator.hpp          | 4 ++++
 redGrapes/memory/chunked_bump_alloc.hpp | 5 +++++
 redGrapes/util/atomic_list.hpp          | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/redGrapes/memory/allocator.hpp b/redGrapes/memory/allocator.hpp
index 5167b26..a63eacf 100644
--- a/redGrapes/memory/allocator.hpp
+++ b/redGrapes/memory/allocator.hpp
@@ -7,6 +7,7 @@
 #include <spdlog/spdlog.h>
 
 #include <memory>
+#include <new>
 
 namespace redGrapes
 {
@@ -61,6 +62,9 @@ namespace redGrapes
             inline T* allocate(std::size_t n)
             {
                 Block blk = alloc.allocate(sizeof(T) * n);
+                if(!blk)
+                    throw std::bad_alloc();
+
                 SPDLOG_TRACE(
                     "allocate {},{},{}",
                     (uintptr_t) blk.ptr,
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 0bc30f7..6f05f58 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -89,6 +89,7 @@ namespace redGrapes
                     Block blk = Block::null();
 
                     while(!blk)
+                    try
                     {
                         // try to alloc in current chunk
                         auto chunk = bump_allocators.rbegin();
@@ -111,6 +112,10 @@ namespace redGrapes
                         else
                             bump_allocators.try_allocate_first_item();
                     }
+                    catch(std::bad_alloc const&)
+                    {
+                        return Block::null();
+                    }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
                     return blk;
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 0b2bd0b..0d4646f 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -111,6 +111,8 @@ namespace redGrapes
                     , ptr((T*) alloc.allocate(n_bytes))
                     , n_bytes(n_bytes)
                 {
+                    if(!ptr)
+                        throw std::bad_alloc();
                 }
 
                 template<typename U>
-- 
2.43.0


From f4d95473c92eb3bccc56476c81b7b7d93a2b1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 10/40] fix: AtomicBitfield: report previous value of the upper
 32 bits

---
 redGrapes/util/bitfield.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..048bf72 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
-- 
2.43.0


From 755095ecf33e304cf136efc2c992a670aa6ffd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 11/40] fix: Event: do not lose followers added while the event
 is reached

---
 redGrapes/scheduler/event.cpp | 9 ++++++++-
 redGrapes/scheduler/event.hpp | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..77eeedd 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -68,11 +68,12 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            std::lock_guard<SpinLock> lock(followers_mutex);
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
                 follower->state++;
+                followers.push(follower);
             }
         }
 
@@ -88,6 +89,12 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // any follower which is still being added saw the event as not reached: wait for it.
+            // later attempts to add a follower will see that the event is reached.
+            {
+                std::lock_guard<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..51432b9 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -96,6 +97,9 @@ namespace redGrapes
             //! waker that is waiting for this event
             WakerId waker_id;
 
+            //! taken to add followers, so that none is missed when the event is reached
+            SpinLock followers_mutex;
+
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
 
-- 
2.43.0


From 5fa23318e0310ef5290a6e5f39cb58d31d8ced8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 12/40] fix: EventPtr::notify: dont access an event which is
 not reached, its task may be destroyed

---
 redGrapes/scheduler/event.cpp | 14 ++++++++------
 redGrapes/scheduler/event.hpp |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 77eeedd..961a8c9 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
@@ -163,12 +163,14 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
-                SingletonContext::get().scheduler->wake(this->get_event().waker_id);
-
+            // as long as the event is not reached, others may reach it
+            // and destroy its task at any time, so dont access it anymore
             if(state == 0)
             {
+                WakerId waker_id = this->get_event().waker_id;
+                if(waker_id >= 0)
+                    SingletonContext::get().scheduler->wake(waker_id);
+
                 this->get_event().notify_followers();
 
                 // the second one of either post-event or result-get-event shall destroy the task
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 51432b9..57ce44d 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -95,7 +95,7 @@ namespace redGrapes
             std::atomic_uint16_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
 
             //! taken to add followers, so that none is missed when the event is reached
             SpinLock followers_mutex;
-- 
2.43.0


From b200df41cbb0a5bb8636bd3a781bbcff54ec22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 13/40] fix: Event: number of incoming edges must not overflow

---
 redGrapes/scheduler/event.cpp | 8 ++++----
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 961a8c9..5e5c58e 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -31,14 +31,14 @@ namespace redGrapes
         }
 
         Event::Event(Event& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
@@ -112,8 +112,8 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify");
 
-            int old_state = this->get_event().state.fetch_sub(1);
-            int state = old_state - 1;
+            uint32_t old_state = this->get_event().state.fetch_sub(1);
+            uint32_t state = old_state - 1;
 
             std::string tag_string;
             switch(this->tag)
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 57ce44d..7f782f7 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -92,7 +92,7 @@ namespace redGrapes
             /*! number of incoming edges
              * state == 0: event is reached and can be removed
              */
-            std::atomic_uint16_t state;
+            std::atomic_uint32_t state;
 
             //! waker that is waiting for this event
             std::atomic<WakerId> waker_id;
-- 
2.43.0


From 0704abf0c077289cb37437b600e466598d804874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 14/40] fix: execute_task: pausing a task must not replace the
 waker of the event

---
 redGrapes/dispatch/thread/execute.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..ec6b912 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,7 +38,6 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
 
             task.pre_event.up();
-- 
2.43.0


From bf06ecf2e663b8d7fd3318b1d04f770d571fdfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 15/40] fix: sg_pause: activate a paused task only once

---
 redGrapes/dispatch/thread/execute.cpp | 2 --
 redGrapes/task/property/graph.hpp     | 7 +++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index ec6b912..35afcfe 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -39,8 +39,6 @@ namespace thread
         if(event)
         {
             task.sg_pause(*event);
-
-            task.pre_event.up();
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..d3da295 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -126,11 +126,14 @@ namespace redGrapes
 
         /*!
          * represent ›pausation of the task until event is reached‹
-         * in the scheduling graph
+         * in the scheduling graph.
+         *
+         * Until the pre-event is notified after this call,
+         * the task will not be activated, even if `event` is already reached.
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
-            pre_event.state = 1;
+            pre_event.state = 2;
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From b7b839aba8dd52b39fbe3cc200677fe79ec7dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 16/40] fix: yield: dont use thread-local current_task after
 switching threads

---
 redGrapes/redGrapes.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 9d1e502..b9b2a58 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -156,10 +156,12 @@ namespace redGrapes
     //! pause the currently running task at least until event is reached
     void Context::yield(scheduler::EventPtr event)
     {
-        if(current_task)
+        // the task may be continued by another thread,
+        // so the thread-local `current_task` must not be used again
+        if(Task* task = current_task)
         {
             while(!event->is_reached())
-                current_task->yield(event);
+                task->yield(event);
         }
         else
         {
-- 
2.43.0


From 6cb6a1259d6ec0c3a2f85733f77b4abcb98322d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 17/40] fix: a parent must wait for children which are not
 initialized yet

---
 redGrapes/task/property/graph.cpp | 7 -------
 redGrapes/task/task_space.cpp     | 4 ++++
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..75f1ebc 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -72,13 +72,6 @@ namespace redGrapes
                 }
             }
         }
-
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..4c8ad12 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -83,6 +83,10 @@ namespace redGrapes
             r->task_entry = r->resource->users.push(task);
         }
 
+        // add dependency to parent, before the parent can complete
+        if(parent)
+            task->post_event.add_follower(parent->get_post_event());
+
         SingletonContext::get().scheduler->emplace_task(*task);
     }
 
-- 
2.43.0


From a54ad8257f17e035bfa33698dcbbf5ddf3294265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 18/40] fix: free tasks in the arena they were allocated from

---
 redGrapes/task/task_space.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 4c8ad12..48b8865 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -56,8 +56,8 @@ namespace redGrapes
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
-        SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
-            memory::Block{(uintptr_t) task, sizeof(Task)});
+        // note: must be the arena which the builder allocated from, and which outlives the worker
+        memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
-- 
2.43.0


From 5bfdd1c154841c5a9e1090c92799595529752ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 19/40] fix: TaskSpace: forget child spaces of destroyed tasks

---
 redGrapes/task/task_space.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 48b8865..4e6a275 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -14,6 +14,8 @@
 #include <redGrapes/task/task_space.hpp>
 #include <redGrapes/util/trace.hpp>
 
+#include <algorithm>
+
 namespace redGrapes
 {
     TaskSpace::~TaskSpace()
@@ -53,6 +55,18 @@ namespace redGrapes
         unsigned count = task_count.fetch_sub(1) - 1;
 
         unsigned arena_id = task->arena_id;
+
+        // the task might be the last one to refer to this space
+        std::shared_ptr<TaskSpace> self = task->space;
+
+        if(task->children)
+        {
+            std::unique_lock<std::shared_mutex> wr_lock(active_child_spaces_mutex);
+            active_child_spaces.erase(
+                std::remove(active_child_spaces.begin(), active_child_spaces.end(), task->children),
+                active_child_spaces.end());
+        }
+
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
-- 
2.43.0


From 35ba0a8e9f4c2423d81e60362528de4c5a8a46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 20/40] fix: barrier: wait for completion of tasks, not for
 release of their futures

---
 redGrapes/scheduler/event.cpp |  7 ++++++-
 redGrapes/task/task_space.cpp | 26 ++++++++++++++------------
 redGrapes/task/task_space.hpp |  5 ++++-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 5e5c58e..d27f651 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -177,8 +177,13 @@ namespace redGrapes
                 if(task)
                     if(tag == scheduler::T_EVT_POST || tag == scheduler::T_EVT_RES_GET)
                     {
+                        std::shared_ptr<TaskSpace> space = task->space;
+
                         if(task->removal_countdown.fetch_sub(1) == 1)
-                            task->space->free_task(task);
+                            space->free_task(task);
+
+                        if(tag == scheduler::T_EVT_POST)
+                            space->complete_task();
                     }
             }
 
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 4e6a275..c173a0d 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -45,20 +45,29 @@ namespace redGrapes
 
     bool TaskSpace::empty() const
     {
-        unsigned tc = task_count.load();
+        unsigned long tc = task_count.load();
         return tc == 0;
     }
 
+    void TaskSpace::complete_task()
+    {
+        TRACE_EVENT("TaskSpace", "complete_task()");
+        unsigned long count = task_count.fetch_sub(1) - 1;
+
+        // TODO: implement this using post-event of root-task?
+        //  - event already has in_edge count
+        //  -> never have current_task = nullptr
+        // spdlog::info("kill task... {} remaining", count);
+        if(count == 0)
+            SingletonContext::get().scheduler->wake_all();
+    }
+
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
 
         unsigned arena_id = task->arena_id;
 
-        // the task might be the last one to refer to this space
-        std::shared_ptr<TaskSpace> self = task->space;
-
         if(task->children)
         {
             std::unique_lock<std::shared_mutex> wr_lock(active_child_spaces_mutex);
@@ -72,13 +81,6 @@ namespace redGrapes
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
         // note: must be the arena which the builder allocated from, and which outlives the worker
         memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
-
-        // TODO: implement this using post-event of root-task?
-        //  - event already has in_edge count
-        //  -> never have current_task = nullptr
-        // spdlog::info("kill task... {} remaining", count);
-        if(count == 0)
-            SingletonContext::get().scheduler->wake_all();
     }
 
     void TaskSpace::submit(Task* task)
diff --git a/redGrapes/task/task_space.hpp b/redGrapes/task/task_space.hpp
index 71e7c98..5b4a6e3 100644
--- a/redGrapes/task/task_space.hpp
+++ b/redGrapes/task/task_space.hpp
@@ -45,7 +45,10 @@ namespace redGrapes
         // add a new task to the task-space
         void submit(Task* task);
 
-        // remove task from task-space
+        // a task from this task-space completed
+        void complete_task();
+
+        // destroy a completed task whose result is not used anymore
         void free_task(Task* task);
 
         bool empty() const;
-- 
2.43.0


From 6bf082a725077a1ca371a8eaf517f04227517094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 21/40] fix: add_resource_access: list a resource only once per
 task

---
 redGrapes/resource/resource_user.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..09d494c 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,12 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+
+        // each resource must be listed only once
+        for(auto u = unique_resources.rbegin(); u != unique_resources.rend(); ++u)
+            if(u->resource == r)
+                return;
+
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From e985b7c8cacd46b433708b98b74dd842a8903075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 22/40] fix: update_properties: a rejected update has no
 effect, new tasks see accesses which are kept

---
 redGrapes/resource/resource_user.cpp |  8 +++++++
 redGrapes/resource/resource_user.hpp |  1 +
 redGrapes/task/property/resource.hpp | 31 ++++++++++++++++++++++++----
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 09d494c..d2bd51c 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -63,6 +63,14 @@ namespace redGrapes
         }
     }
 
+    bool ResourceUser::has_access(ResourceAccess const& ra) const
+    {
+        for(auto r = access_list.crbegin(); r != access_list.crend(); ++r)
+            if(*r == ra)
+                return true;
+        return false;
+    }
+
     bool ResourceUser::has_sync_access(std::shared_ptr<ResourceBase> res)
     {
         for(auto ra = access_list.rbegin(); ra != access_list.rend(); ++ra)
diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index 3edf608..98ecd14 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -46,6 +46,7 @@ namespace redGrapes
         void add_resource_access(ResourceAccess ra);
         void rm_resource_access(ResourceAccess ra);
         void build_unique_resource_list();
+        bool has_access(ResourceAccess const& ra) const;
         bool has_sync_access(std::shared_ptr<ResourceBase> res);
         bool is_superset_of(ResourceUser const& a) const;
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..76634f2 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -19,6 +19,7 @@
 
 #include <cstdarg>
 #include <stdexcept>
+#include <vector>
 
 namespace redGrapes
 {
@@ -114,23 +115,45 @@ namespace redGrapes
 
         void apply_patch(Patch const& patch)
         {
-            ResourceUser before(*this);
+            ResourceUser updated(*this);
 
             for(auto x : patch.diff)
             {
                 switch(x.first)
                 {
                 case Patch::DiffType::ADD:
-                    (*this) += x.second;
+                    updated.add_resource_access(x.second);
                     break;
                 case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
+                    updated.rm_resource_access(x.second);
                     break;
                 }
             }
 
-            if(!before.is_superset_of(*this))
+            if(!this->is_superset_of(updated))
                 throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            std::vector<ResourceAccess> added, removed;
+            for(auto ra = updated.access_list.rbegin(); ra != updated.access_list.rend(); ++ra)
+                if(!this->has_access(*ra))
+                    added.push_back(*ra);
+            for(auto ra = this->access_list.rbegin(); ra != this->access_list.rend(); ++ra)
+                if(!updated.has_access(*ra))
+                    removed.push_back(*ra);
+
+            /* concurrently, new tasks may check this access list (see init_graph()).
+             * first add, then remove, so that they never miss an access which is kept.
+             */
+            for(auto& ra : added)
+            {
+                std::unique_lock<SpinLock> lock(ra.get_resource()->users_mutex);
+                (*this) += ra;
+            }
+            for(auto& ra : removed)
+            {
+                std::unique_lock<SpinLock> lock(ra.get_resource()->users_mutex);
+                (*this) -= ra;
+            }
         }
     };
 
-- 
2.43.0


From 4392927f5ca925fd870fe9cf5328c3709074aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 23/40] fix: update_graph: release exactly the edges which are
 not needed anymore

---
 redGrapes/task/property/graph.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 75f1ebc..17871e2 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -104,21 +104,25 @@ namespace redGrapes
 
     void GraphProperty::update_graph()
     {
-        // std::unique_lock< SpinLock > lock( post_event.followers_mutex );
+        // wait for tasks whose dependencies were checked before the access list changed
+        for(auto r = this->task->unique_resources.rbegin(); r != this->task->unique_resources.rend(); ++r)
+            std::unique_lock<SpinLock> lock(r->resource->users_mutex);
 
         //    for( auto follower : post_event.followers )
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
             scheduler::EventPtr follower = *it;
-            if(follower.task)
+            // other events than pre-events do not depend on resources
+            if(follower.task && follower.tag == scheduler::T_EVT_PRE)
             {
                 if(!space->is_serial(*this->task, *follower.task))
                 {
                     // remove dependency
                     // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
                     // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                    post_event.followers.remove(it);
 
+                    // each edge has to be notified separately
                     follower.notify();
                 }
             }
-- 
2.43.0


From 409ad2e4cd92dd077d219f23a1bbb725e8d2a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 24/40] fix: refuse child tasks whose accesses are not covered
 by their parent

---
 redGrapes/task/task_builder.hpp |  3 ++-
 redGrapes/task/task_space.cpp   | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/redGrapes/task/task_builder.hpp b/redGrapes/task/task_builder.hpp
index 6f6af0c..26941df 100644
--- a/redGrapes/task/task_builder.hpp
+++ b/redGrapes/task/task_builder.hpp
@@ -108,7 +108,8 @@ namespace redGrapes
             other.task = nullptr;
         }
 
-        ~TaskBuilder()
+        // submission may be refused
+        ~TaskBuilder() noexcept(false)
         {
             if(task)
                 submit();
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c173a0d..e6a34b3 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -15,6 +15,7 @@
 #include <redGrapes/util/trace.hpp>
 
 #include <algorithm>
+#include <stdexcept>
 
 namespace redGrapes
 {
@@ -86,14 +87,21 @@ namespace redGrapes
     void TaskSpace::submit(Task* task)
     {
         TRACE_EVENT("TaskSpace", "submit()");
+        if(parent && !this->is_superset(*parent, *task))
+        {
+            // refuse the task
+            unsigned arena_id = task->arena_id;
+            task->~Task();
+            memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
+
+            throw std::runtime_error("redGrapes: resource accesses of the child task are not covered by its parent!");
+        }
+
         task->space = shared_from_this();
         task->task = task;
 
         ++task_count;
 
-        if(parent)
-            assert(this->is_superset(*parent, *task));
-
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
             r->task_entry = r->resource->users.push(task);
-- 
2.43.0


From d4531db4e7127c3314e05e43ba23a27e8961497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 25/40] fix: activate_task: may be called by a thread which is
 not a worker

---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..674b577 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                if(SingletonContext::get().current_worker
+                   && worker_id == SingletonContext::get().current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From e0bd8f95c35ca213483d5c5e863f7bc788cb3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 26/40] fix: AtomicBitfield: search following elements first
 and respect exclude_start

---
 redGrapes/dispatch/thread/worker_pool.hpp | 3 ++-
 redGrapes/util/bitfield.hpp               | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/redGrapes/dispatch/thread/worker_pool.hpp b/redGrapes/dispatch/thread/worker_pool.hpp
index d8acefa..1248e66 100644
--- a/redGrapes/dispatch/thread/worker_pool.hpp
+++ b/redGrapes/dispatch/thread/worker_pool.hpp
@@ -87,7 +87,8 @@ namespace redGrapes
                     return worker_state.template probe_by_value<T, F>(
                         std::move(f),
                         expected_worker_state,
-                        start_worker_idx);
+                        start_worker_idx,
+                        exclude_start);
                 }
 
                 /*!
diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 048bf72..6d07e07 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -79,8 +79,8 @@ namespace redGrapes
             bool exclude_start = true)
         {
             uint64_t start_field_idx = start_idx / bitfield_len;
-            uint64_t first_mask = (uint64_t(-1) << (start_idx % bitfield_len));
-            uint64_t second_mask = ~first_mask;
+            uint64_t second_mask = (uint64_t(-1) << (start_idx % bitfield_len));
+            uint64_t first_mask = ~second_mask;
 
             /* probe second-half of current chunk
              */
-- 
2.43.0


From 4255849ad039d5b3024bca78b0719b9def226d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 27/40] fix: TagMatch: override task_dependency_type

---
 redGrapes/scheduler/tag_match.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/tag_match.hpp b/redGrapes/scheduler/tag_match.hpp
index 4fd9533..a6f51ef 100644
--- a/redGrapes/scheduler/tag_match.hpp
+++ b/redGrapes/scheduler/tag_match.hpp
@@ -81,7 +81,7 @@ namespace redGrapes
                 return std::nullopt;
             }
 
-            bool task_dependency_type(Task const& a, Task& b)
+            bool task_dependency_type(Task const& a, Task const& b)
             {
                 /// fixme: b or a ?
                 if(auto sub_scheduler = get_matching_scheduler(b.required_scheduler_tags))
-- 
2.43.0


From cc40a4f67bab84eb260f78b133b539da14bbc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 28/40] fix: remove tasks again which are refused by the
 scheduler

---
 redGrapes/task/task_space.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index e6a34b3..9745081 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -90,10 +90,7 @@ namespace redGrapes
         if(parent && !this->is_superset(*parent, *task))
         {
             // refuse the task
-            unsigned arena_id = task->arena_id;
-            task->~Task();
-            memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
-
+            free_task(task);
             throw std::runtime_error("redGrapes: resource accesses of the child task are not covered by its parent!");
         }
 
@@ -111,7 +108,21 @@ namespace redGrapes
         if(parent)
             task->post_event.add_follower(parent->get_post_event());
 
-        SingletonContext::get().scheduler->emplace_task(*task);
+        try
+        {
+            SingletonContext::get().scheduler->emplace_task(*task);
+        }
+        catch(...)
+        {
+            // the scheduler refused the task, so remove it again
+            task->delete_from_resources();
+            if(parent)
+                parent->post_event.dn();
+
+            free_task(task);
+            complete_task();
+            throw;
+        }
     }
 
 } // namespace redGrapes
-- 
2.43.0


From cca8ce897026876b8a8f705fe07bfaab732c7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 29/40] fix: emplace_task: copy callables given as lvalues
 instead of moving from them

---
 redGrapes/redGrapes.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redGrapes/redGrapes.hpp b/redGrapes/redGrapes.hpp
index 0fc5a5c..08debf1 100644
--- a/redGrapes/redGrapes.hpp
+++ b/redGrapes/redGrapes.hpp
@@ -164,7 +164,7 @@ namespace redGrapes
     template<typename Callable, typename... Args>
     inline auto emplace_task(Callable&& f, Args&&... args)
     {
-        return std::move(SingletonContext::get().emplace_task(std::move(f), std::forward<Args>(args)...));
+        return std::move(SingletonContext::get().emplace_task(std::forward<Callable>(f), std::forward<Args>(args)...));
     }
 
 } // namespace redGrapes
@@ -189,6 +189,9 @@ namespace redGrapes
 
         SPDLOG_TRACE("emplace task to worker {} next_worker={}", worker_id, next_worker);
 
-        return std::move(TaskBuilder<Callable, Args...>(std::move(f), std::forward<Args>(args)...));
+        // the task owns its callable: copy lvalues, move rvalues
+        std::decay_t<Callable> impl(std::forward<Callable>(f));
+
+        return std::move(TaskBuilder<std::decay_t<Callable>, Args...>(std::move(impl), std::forward<Args>(args)...));
     }
 } // namespace redGrapes
-- 
2.43.0


From 708925cc14e01155873e31287866efb4345c6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 30/40] fix: empty areas do not conflict with anything

---
 redGrapes/resource/access/area.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/access/area.hpp b/redGrapes/resource/access/area.hpp
index 521b353..97f73de 100644
--- a/redGrapes/resource/access/area.hpp
+++ b/redGrapes/resource/access/area.hpp
@@ -13,6 +13,7 @@
 
 #include <fmt/format.h>
 
+#include <algorithm>
 #include <array>
 #include <limits>
 
@@ -41,7 +42,8 @@ namespace redGrapes
 
             static bool is_serial(AreaAccess const& a, AreaAccess const& b)
             {
-                return !((a[1] <= b[0]) || (a[0] >= b[1]));
+                // empty areas intersect with nothing
+                return std::max(a[0], b[0]) < std::min(a[1], b[1]);
             }
 
             bool is_superset_of(AreaAccess const& a) const
-- 
2.43.0


From 6aa50d24862d4ff0ed561e97b723ff5989a6e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 31/40] fix: unlink erased allocator chunks when a new chunk is
 appended

---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 6f05f58..d95615f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -105,6 +105,9 @@ namespace redGrapes
                                 if(chunk->empty())
                                     bump_allocators.erase(chunk);
 
+                                // unlink erased chunks before, so they are not kept alive by this one
+                                chunk.optimize();
+
                                 bump_allocators.try_allocate_item(chunk.c);
                             }
                         }
-- 
2.43.0


From 1de7328ae693b6f2c9af3631568ae75bc9f9a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 32/40] fix: allocator chunk was released while the last block
 in it was just allocated

---
 redGrapes/memory/chunked_bump_alloc.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index d95615f..9830ba9 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -154,7 +154,11 @@ namespace redGrapes
                         if(it->deallocate(blk) == 1)
                         {
                             SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
-                            if(it->full())
+
+                            /* someone else might have allocated the remaining space in the meantime,
+                             * so only as the chunk is full, `empty()` can not change anymore
+                             */
+                            if(it->full() && it->empty())
                             {
                                 bump_allocators.erase(it);
                                 prev.optimize();
-- 
2.43.0


From 8b9fdfde9aa0427039d0791644ce8d3377c5f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 33/40] fix: block of zero bytes was not found on deallocation

---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 9830ba9..bb61673 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -82,7 +82,8 @@ namespace redGrapes
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
-                size_t alloc_size = roundup_to_poweroftwo(n);
+                // an empty block still needs an address inside of the chunk
+                size_t alloc_size = roundup_to_poweroftwo(n > 0 ? n : 1);
 
                 if(n <= chunk_size && alloc_size <= chunk_size)
                 {
-- 
2.43.0


From cf23b94fbd4c091f3d5b64b0ab786c989aa41b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 34/40] fix: notify followers of a re-armed pre-event only once

---
 redGrapes/scheduler/event.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index d27f651..d650137 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -95,8 +95,13 @@ namespace redGrapes
                 std::lock_guard<SpinLock> lock(followers_mutex);
             }
 
-            for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
-                follower->notify();
+            for(auto it = followers.rbegin(); it != followers.rend(); ++it)
+            {
+                // the pre-event is reached again after the task was paused: notify each follower only once
+                EventPtr follower = *it;
+                followers.remove(it);
+                follower.notify();
+            }
         }
 
         /*! A preceding event was reached and thus an incoming edge got removed.
-- 
2.43.0


From 7eae0255816fbe1f954609c11a0afd5cd4369322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 35/40] fix: ready tasks were left behind a running task while
 other workers sleep

---
 redGrapes/dispatch/thread/worker.cpp      |  7 +++++++
 redGrapes/dispatch/thread/worker.hpp      |  2 ++
 redGrapes/dispatch/thread/worker_pool.cpp | 16 ++++++++++++++++
 redGrapes/dispatch/thread/worker_pool.hpp |  6 ++++++
 redGrapes/scheduler/default_scheduler.cpp |  6 +++++-
 redGrapes/task/queue.hpp                  |  5 +++++
 6 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/redGrapes/dispatch/thread/worker.cpp b/redGrapes/dispatch/thread/worker.cpp
index e25c5d2..3716421 100644
--- a/redGrapes/dispatch/thread/worker.cpp
+++ b/redGrapes/dispatch/thread/worker.cpp
@@ -148,7 +148,14 @@ namespace redGrapes
                     while(Task* task = this->gather_task())
                     {
                         SingletonContext::get().worker_pool->set_worker_state(id, dispatch::thread::WorkerState::BUSY);
+
+                        // other tasks may be assigned to this worker already
+                        executing.store(true);
+                        SingletonContext::get().worker_pool->offer_tasks(id);
+
                         SingletonContext::get().execute_task(*task);
+
+                        executing.store(false);
                     }
                 }
                 SPDLOG_TRACE("Worker {} end work_loop()", id);
diff --git a/redGrapes/dispatch/thread/worker.hpp b/redGrapes/dispatch/thread/worker.hpp
index 09137df..76936cd 100644
--- a/redGrapes/dispatch/thread/worker.hpp
+++ b/redGrapes/dispatch/thread/worker.hpp
@@ -48,6 +48,8 @@ namespace redGrapes
                  */
                 std::atomic_bool m_stop{false};
 
+                //! true while a task is executed, i.e. tasks in the queues have to wait or be stolen
+                std::atomic_bool executing{false};
 
                 std::atomic<unsigned> task_count{0};
 
diff --git a/redGrapes/dispatch/thread/worker_pool.cpp b/redGrapes/dispatch/thread/worker_pool.cpp
index 194df68..f23beb0 100644
--- a/redGrapes/dispatch/thread/worker_pool.cpp
+++ b/redGrapes/dispatch/thread/worker_pool.cpp
@@ -100,6 +100,22 @@ namespace redGrapes
                     return -1;
             }
 
+            void WorkerPool::offer_tasks(WorkerId worker_id)
+            {
+                auto& worker = get_worker(worker_id);
+                if(worker.ready_queue.empty() && worker.emplacement_queue.empty())
+                    return;
+
+                this->probe_worker_by_state<unsigned>(
+                    [this](unsigned idx) -> std::optional<unsigned>
+                    {
+                        get_worker(idx).wake();
+                        return std::nullopt;
+                    },
+                    dispatch::thread::WorkerState::AVAILABLE,
+                    worker_id);
+            }
+
         } // namespace thread
     } // namespace dispatch
 } // namespace redGrapes
diff --git a/redGrapes/dispatch/thread/worker_pool.hpp b/redGrapes/dispatch/thread/worker_pool.hpp
index 1248e66..ced1860 100644
--- a/redGrapes/dispatch/thread/worker_pool.hpp
+++ b/redGrapes/dispatch/thread/worker_pool.hpp
@@ -99,6 +99,12 @@ namespace redGrapes
                  */
                 int find_free_worker();
 
+                /*!
+                 * wakes up the available workers to steal the tasks
+                 * which are left in the queues of the given busy worker, if any
+                 */
+                void offer_tasks(WorkerId worker_id);
+
             private:
                 HwlocContext& hwloc_ctx;
 
diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index 674b577..e18f9b4 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -87,6 +87,10 @@ namespace redGrapes
             SingletonContext::get().worker_pool->get_worker(worker_id).ready_queue.push(&task);
             SingletonContext::get().worker_pool->set_worker_state(worker_id, dispatch::thread::WorkerState::BUSY);
             SingletonContext::get().worker_pool->get_worker(worker_id).wake();
+
+            // in the meantime the worker may have found another task
+            if(SingletonContext::get().worker_pool->get_worker(worker_id).executing)
+                SingletonContext::get().worker_pool->offer_tasks(worker_id);
         }
 
         /* tries to find a task with uninialized dependency edges in the
@@ -166,7 +170,7 @@ namespace redGrapes
                 return task;
             }
 
-            if(Task* task = steal_new_task(worker))
+            while(Task* task = steal_new_task(worker))
             {
                 task->pre_event.up();
                 task->init_graph();
diff --git a/redGrapes/task/queue.hpp b/redGrapes/task/queue.hpp
index edb25e5..1951956 100644
--- a/redGrapes/task/queue.hpp
+++ b/redGrapes/task/queue.hpp
@@ -142,6 +142,11 @@ namespace redGrapes
                 else
                     return nullptr;
             }
+
+            inline bool empty()
+            {
+                return this->cq.size_approx() == 0;
+            }
         };
 
     } // namespace task
-- 
2.43.0


From 17acf9e221b81f017f378aa152fa1be9ffe97b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 36/40] fix: scope level of a task must not overflow

---
 redGrapes/resource/resource_user.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index 98ecd14..e4cf95a 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -52,7 +52,7 @@ namespace redGrapes
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
         static bool is_serial(ResourceUser const& a, ResourceUser const& b);
 
-        uint8_t scope_level;
+        unsigned scope_level;
 
         ChunkedList<ResourceAccess, 8> access_list;
         ChunkedList<ResourceUsageEntry, 8> unique_resources;
-- 
2.43.0


From 67ee0e90b7bdc30613692d083b919e1d07fc65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 37/40] fix: log message read the task after it might have been
 destroyed

---
 redGrapes/scheduler/event.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index d650137..8e30fe7 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -117,6 +117,9 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify");
 
+            // unless this was the last edge, others may now reach the event and destroy the task at any time
+            [[maybe_unused]] TaskID task_id = this->task ? this->task->task_id : 0;
+
             uint32_t old_state = this->get_event().state.fetch_sub(1);
             uint32_t state = old_state - 1;
 
@@ -145,7 +148,7 @@ namespace redGrapes
                     "notify event {} ({}-event of task {}) ~~> state = {}",
                     (void*) &this->get_event(),
                     tag_string,
-                    this->task->task_id,
+                    task_id,
                     state);
 
             assert(old_state > 0);
-- 
2.43.0


From 3704062e81939964f9cff71ac4f377352a08ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 38/40] fix: worker found no task in its queue while another
 worker lost a race for one

---
 redGrapes/task/queue.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/redGrapes/task/queue.hpp b/redGrapes/task/queue.hpp
index 1951956..ceb4e21 100644
--- a/redGrapes/task/queue.hpp
+++ b/redGrapes/task/queue.hpp
@@ -137,10 +137,11 @@ namespace redGrapes
             {
                 TRACE_EVENT("Task", "TaskQueue::pop()");
                 Task* t = nullptr;
-                if(this->cq.try_dequeue(t))
-                    return t;
-                else
-                    return nullptr;
+                // try_dequeue() may miss a task while another consumer is about to find the queue empty
+                while(!this->cq.try_dequeue(t))
+                    if(this->empty())
+                        return nullptr;
+                return t;
             }
 
             inline bool empty()
-- 
2.43.0


From f949fc7b153225bb2b325a30e7fbc277bd8b39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 39/40] fix: after a failed chunk allocation, every later push
 to a list waited forever

---
 redGrapes/util/chunked_list.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index d87fdc0..c68b0f9 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -554,7 +554,16 @@ namespace redGrapes
                             /* here we are the first thread that overflows
                              * the current chunk, so allocate a new chunk here
                              */
-                            chunks.allocate_item();
+                            try
+                            {
+                                chunks.allocate_item();
+                            }
+                            catch(...)
+                            {
+                                // nobody else would allocate it, so let the next thread try again
+                                chunk->next_item.store(chunk_end);
+                                throw;
+                            }
                         }
                         else
                         {
-- 
2.43.0


From 0d46f48e3eb4e6a8dbf997d11a6dec5bf35f38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 40/40] fix: properties of an argument which is a moved
 constant were ignored

---
 redGrapes/task/task_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_builder.hpp b/redGrapes/task/task_builder.hpp
index 26941df..c2c23d5 100644
--- a/redGrapes/task/task_builder.hpp
+++ b/redGrapes/task/task_builder.hpp
@@ -35,7 +35,8 @@ namespace redGrapes
         template<typename T>
         inline int build(T const& x)
         {
-            trait::BuildProperties<T>::build(builder, x);
+            // T is const for a constant which was moved: the trait is implemented for its type
+            trait::BuildProperties<typename std::remove_const<T>::type>::build(builder, x);
             return 0;
         }
 
-- 
2.43.0

