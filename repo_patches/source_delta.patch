From e5107847d55d6137577511c2d50183e75877c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 01/39] fix: StackBuffer index entries may be stored at
 misaligned addresses

---
 gmlc/containers/StackBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..4b8d3a8 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -18,10 +18,14 @@ SPDX-License-Identifier: BSD-3-Clause
 
 namespace gmlc {
 namespace containers {
+    // packed since the index entries are placed at the end of a raw memory block
+    // with no alignment guarantees on the location or size of that block
+#pragma pack(push, 1)
     struct dataIndex {
         int32_t offset;
         int32_t dataSize;
     };
+#pragma pack(pop)
 
     /// Helper for size information on the data index
     constexpr int diSize = static_cast<int>(sizeof(dataIndex));
-- 
2.43.0


From 93696179dff1a85094c5d1fda8b8f498a7004215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 02/39] fix: StackBuffer::resize with stored data loses track
 of the next write position

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 4b8d3a8..01479de 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -230,6 +230,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 stack = StackBufferRaw(data, newsize);
             } else if (newsize > statedSize) {
+                int dataOffset = static_cast<int>(stack.next - stack.origin);
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
@@ -240,7 +241,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -261,7 +262,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 622fe983c5f3b7b53507e610bfd09d02615b8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 03/39] fix: a StackBuffer that was move assigned from keeps a
 stale capacity

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 01479de..e4c4611 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -196,6 +196,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From ed21598872a656fa129cac2ccb9aac139e1f297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 04/39] fix: zero size allocations of StackBuffer and
 CircularBuffer leak

---
 gmlc/containers/CircularBuffer.hpp | 17 +++++------------
 gmlc/containers/StackBuffer.hpp    | 10 ++++------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..960281a 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -143,12 +143,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -315,13 +310,11 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                // data can be a valid zero size allocation
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index e4c4611..1dce39a 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -321,13 +321,11 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                // data can be a valid zero size allocation
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From b82a56334762750cb3249f92db593010da4dfa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 05/39] fix: copy of a default constructed CircularBuffer keeps
 a dangling data pointer

---
 gmlc/containers/CircularBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 960281a..e6a85d2 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -169,6 +169,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
-- 
2.43.0


From 64e60848e261e48617834f25fd19ae8aaabcab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 06/39] fix: a CircularBuffer filled exactly up to the read
 position looks empty

---
 gmlc/containers/CircularBuffer.hpp | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index e6a85d2..bb12b89 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,7 +50,7 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
@@ -63,6 +63,7 @@ namespace containers {
                         (next_read > origin)) {
                         next_write = origin;
                     }
+                    ++blockCount;
                     return true;
                 } else if (
                     (next_read - origin) >=
@@ -72,6 +73,7 @@ namespace containers {
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    ++blockCount;
                     return true;
                 }
             } else if (
@@ -80,13 +82,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                ++blockCount;
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -100,7 +103,7 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -112,6 +115,7 @@ namespace containers {
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
+                --blockCount;
                 if ((capacity_ - (next_read - origin)) < 8) {
                     next_read = origin;
                 }
@@ -120,15 +124,28 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (blockCount == 0); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            blockCount = 0;
+        }
 
       private:
+        /** check if the stored data wraps around the end of the memory, if the
+        pointers match the buffer is either empty or completely full*/
+        bool wrapped() const
+        {
+            return (next_write == next_read) ? !empty() :
+                                               (next_write < next_read);
+        }
+
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        int blockCount{0};  //!< the number of blocks stored
 
       private:
         friend class CircularBuffer;
@@ -155,6 +172,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -190,6 +208,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
-- 
2.43.0


From 8678135c18aed8151594aad6cc73968ca1dec13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 07/39] fix: CircularBuffer writes wrap markers out of bounds
 and skips or repeats blocks at the wrap

---
 gmlc/containers/CircularBuffer.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index bb12b89..a9164ab 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -61,6 +61,7 @@ namespace containers {
                     // of at least 4 bytes and the next_read>origin
                     if (((capacity_ - (next_write - origin)) < 8) &&
                         (next_read > origin)) {
+                        markWrap();
                         next_write = origin;
                     }
                     ++blockCount;
@@ -68,8 +69,7 @@ namespace containers {
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    markWrap();
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
@@ -116,7 +116,10 @@ namespace containers {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
                 --blockCount;
-                if ((capacity_ - (next_read - origin)) < 8) {
+                if (empty()) {
+                    // nothing left, so start over at the beginning
+                    clear();
+                } else if (atWrap()) {
                     next_read = origin;
                 }
                 return size;
@@ -133,6 +136,27 @@ namespace containers {
         }
 
       private:
+        /** mark the memory after next_write as unused, if there is no room for
+        the marker the reader will wrap around regardless*/
+        void markWrap()
+        {
+            if ((capacity_ - (next_write - origin)) >= 4) {
+                int loc = -1;
+                memcpy(next_write, &loc, sizeof(int));
+            }
+        }
+        /** check if the next block to read is at the start of the memory, only
+        valid if there are blocks stored*/
+        bool atWrap() const
+        {
+            if ((capacity_ - (next_read - origin)) < 4) {
+                // no room for a block size or a wrap marker
+                return true;
+            }
+            int size;
+            memcpy(&size, next_read, sizeof(int));
+            return (size < 0);
+        }
         /** check if the stored data wraps around the end of the memory, if the
         pointers match the buffer is either empty or completely full*/
         bool wrapped() const
-- 
2.43.0


From 34ff18959c629923cb6ff5cf67c7ed9862dc72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 08/39] fix: BlockIterator difference_type is the element type

---
 gmlc/containers/BlockIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..82c2f03 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = std::ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
-- 
2.43.0


From a238fa13d17f6c7887db07fd68e45ad58af8d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 09/39] fix: BlockIterator jumps by a negative distance do not
 cross block boundaries

---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index 82c2f03..42c5dc4 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -101,6 +102,7 @@ namespace containers {
         {
             ptr -= movement;
             offset -= static_cast<int>(movement);
+            check();
             checkNeg();
             return (*this);
         }
-- 
2.43.0


From 5d50661dc34037b863351885fdd66becda478f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 10/39] fix: StableBlockVector constructors leak on exceptions,
 and copies of an emptied vector are broken

---
 gmlc/containers/StableBlockVector.hpp | 37 +++++----------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..b9240bb 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -52,41 +52,18 @@ no erase or insert
             size_t startSize,
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
-            dataSlotIndex(static_cast<int>(startSize >> N)),
-            bsize(static_cast<int>(startSize & cntmask))
+            // delegate so the destructor cleans up if the construction of an
+            // element throws
+            StableBlockVector()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataptr[0] = a.allocate(blockSize);
-            } else {
-                for (int ii = 0; ii <= dataSlotIndex; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    if (ii < dataSlotIndex) {
-                        for (int jj = 0; jj < static_cast<int>(blockSize);
-                             ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    } else {
-                        for (int jj = 0; jj < bsize; ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    }
-                }
+            for (size_t ii = 0; ii < startSize; ++ii) {
+                push_back(init);
             }
         }
 
-        StableBlockVector(const StableBlockVector& sbv)
+        StableBlockVector(const StableBlockVector& sbv) : StableBlockVector()
         {
-            if (sbv.dataptr != nullptr) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
-                dataSlotsAvailable = sbv.dataSlotsAvailable;
-                dataSlotIndex = -1;
-                assign(sbv.begin(), sbv.end());
-            }
+            assign(sbv.begin(), sbv.end());
         }
 
         StableBlockVector(StableBlockVector&& sbv) noexcept :
-- 
2.43.0


From 9574980717611524b45f00aac0e525b6e1959dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 11/39] fix: end iterators of a StableBlockVector or
 StableBlockDeque with a full block table read out of bounds

When the last table slot holds a full block, end() (and every iterator that
reaches the end) reads the slot after it. Grow the table one slot earlier.
---
 gmlc/containers/StableBlockDeque.hpp  | 4 +++-
 gmlc/containers/StableBlockVector.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..98cae28 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -484,7 +484,9 @@ and deallocate methods)*/
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
-                if (dataSlotBack >= dataSlotsAvailable - 1) {
+                // keep one spare slot, the end iterators refer to it when the
+                // last block is full
+                if (dataSlotBack >= dataSlotsAvailable - 2) {
                     if (dataSlotFront > 5) {  // shift the pointers
                         std::copy(
                             dataptr + dataSlotFront,
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index b9240bb..afdf25d 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -359,7 +359,9 @@ no erase or insert
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                } else if (dataSlotIndex >= dataSlotsAvailable - 2) {
+                    // keep one spare slot, the end iterators refer to it when
+                    // the last block is full
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
-- 
2.43.0


From ad9cd31c80bca4c58bf46a85da8968efc12215e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 12/39] fix: moved from StableBlockVector and StableBlockDeque
 objects are not usable

The source of a move keeps its block position and free block count (and after a
move assignment its size), so adding elements to it, clearing it or assigning to
it accesses the storage that was given away.
---
 gmlc/containers/StableBlockDeque.hpp  |  8 ++++++++
 gmlc/containers/StableBlockVector.hpp | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 98cae28..5d8c8c3 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -142,7 +142,11 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
         }
 
@@ -169,7 +173,11 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
             return *this;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index afdf25d..394a3d3 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -77,8 +77,9 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
             sbv.csize = 0;
         }
 
@@ -103,7 +104,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
+            sbv.csize = 0;
             return *this;
         }
         /** destructor*/
-- 
2.43.0


From 4758d149b87425fb46ba85fdfb9062052d1eeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 13/39] fix: exceptions from element constructors or the
 allocator corrupt StableBlockVector and StableBlockDeque

The position was advanced before the element was constructed and the block table
was set up before the first block was allocated, so after an exception storage
without an element is destroyed or returned.
---
 gmlc/containers/StableBlockDeque.hpp  | 54 +++++++++++++++++----------
 gmlc/containers/StableBlockVector.hpp | 25 +++++++++----
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 5d8c8c3..c69ddf5 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -188,21 +188,25 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            // only count the element once it is constructed
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -225,21 +229,25 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            // only count the element once it is constructed
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
@@ -480,16 +488,25 @@ and deallocate methods)*/
         const_iterator cbegin() const { return begin(); }
 
       private:
+        /** allocate the block table and the first block
+        @details nothing is changed if one of the allocations throws
+        @param frontIndex the index of the free slot before the first element*/
+        void allocateFirstBlock(int frontIndex)
+        {
+            std::unique_ptr<X*[]> mem(new X*[64]);
+            mem[30] = getNewBlock();
+            dataptr = mem.release();
+            dataSlotsAvailable = 64;
+            dataSlotFront = dataSlotBack = 30;
+            fsize = frontIndex;
+            bsize = frontIndex + 1;
+        }
+
         void blockCheck()
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
-                    dataSlotsAvailable = 64;
-                    dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
-                    bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
+                    allocateFirstBlock(blockSize / 2 - 1);
                     return;
                 }
                 // keep one spare slot, the end iterators refer to it when the
@@ -512,7 +529,8 @@ and deallocate methods)*/
                         dataSlotsAvailable *= 2;
                     }
                 }
-                dataptr[++dataSlotBack] = getNewBlock();
+                auto* block = getNewBlock();
+                dataptr[++dataSlotBack] = block;
                 bsize = 0;
             }
         }
@@ -521,12 +539,7 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
-                    dataSlotsAvailable = 64;
-                    dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
-                    bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
+                    allocateFirstBlock(blockSize / 2 - 1);
                     return;
                 }
                 if (dataSlotFront == 0) {
@@ -553,7 +566,8 @@ and deallocate methods)*/
                     }
                     dataSlotBack = dataSlotFront + diff;
                 }
-                dataptr[--dataSlotFront] = getNewBlock();
+                auto* block = getNewBlock();
+                dataptr[--dataSlotFront] = block;
                 fsize = blockSize - 1;
             }
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 394a3d3..35e15ba 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -117,8 +117,10 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            // only count the element once it is constructed
+            ++bsize;
             ++csize;
         }
 
@@ -126,14 +128,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -360,10 +364,16 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    // nothing is changed if one of the allocations throws
+                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    mem[0] = getNewBlock();
+                    dataptr = mem.release();
                     dataSlotsAvailable = 64;
-                    dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 2) {
+                    dataSlotIndex = 0;
+                    bsize = 0;
+                    return;
+                }
+                if (dataSlotIndex >= dataSlotsAvailable - 2) {
                     // keep one spare slot, the end iterators refer to it when
                     // the last block is full
                     auto mem =
@@ -373,7 +383,8 @@ no erase or insert
                     dataptr = mem;
                     dataSlotsAvailable *= 2;
                 }
-                dataptr[++dataSlotIndex] = getNewBlock();
+                auto* block = getNewBlock();
+                dataptr[++dataSlotIndex] = block;
                 bsize = 0;
             }
         }
-- 
2.43.0


From 5b3f6b8b3e6f5e56142092f4cb0dd81583fe6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 14/39] fix: StableBlockDeque sized and copy constructors
 produce broken or leaking deques

A deque constructed with size 0 or copied from a default constructed one counts
an element that does not exist, and an exception while copying the elements
leaks. Build the elements through the regular insertion functions instead.
---
 gmlc/containers/StableBlockDeque.hpp | 82 +++-------------------------
 1 file changed, 7 insertions(+), 75 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index c69ddf5..ffdef62 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -49,86 +49,18 @@ and deallocate methods)*/
 
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+            // delegate so the destructor cleans up if the construction of an
+            // element throws
+            StableBlockDeque()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
-            } else {
-                int blocks = static_cast<int>((startSize >> N));
-                if (blocks > 0) {
-                    blocks += 1;
-                } else if (startSize > blockSize / 2 - 2) {
-                    blocks = 1;
-                }
-
-                if (blocks == 0) {
-                    dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - static_cast<int>(startSize / 2) - 1;
-                    bsize = fsize + static_cast<int>(startSize) + 1;
-                } else if (blocks == 1) {
-                    dataSlotFront = 30;
-                    dataSlotBack = 31;
-                    fsize = blockSize - static_cast<int>(startSize / 2) - 1;
-                    bsize = static_cast<int>(startSize - (startSize / 2));
-                } else {
-                    dataSlotFront = (dataSlotsAvailable - blocks) / 2;
-                    dataSlotBack = dataSlotFront + blocks;
-                    auto med = startSize - (startSize >> N) * blockSize;
-                    fsize = blockSize - static_cast<int>(med / 2) - 1;
-                    bsize = static_cast<int>(med - (med / 2));
-                }
-
-                dataptr[dataSlotFront] = a.allocate(blockSize);
-                if (dataSlotBack > dataSlotFront) {
-                    for (int jj = fsize + 1; jj < static_cast<int>(blockSize);
-                         ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                } else {
-                    for (int jj = fsize + 1; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                }
-                for (int ii = dataSlotFront + 1; ii <= dataSlotBack - 1; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    for (int jj = 0; jj < static_cast<int>(blockSize); ++jj) {
-                        new (&dataptr[ii][jj]) X{init};
-                    }
-                }
-                if (dataSlotBack > dataSlotFront) {
-                    dataptr[dataSlotBack] = a.allocate(blockSize);
-                    for (int jj = 0; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotBack][jj]) X{init};
-                    }
-                }
+            for (size_t ii = 0; ii < startSize; ++ii) {
+                push_back(init);
             }
         }
 
-        StableBlockDeque(const StableBlockDeque& sbd) :
-            dataptr(new X*[std::max(
-                static_cast<size_t>(sbd.dataSlotsAvailable),
-                size_t{64})]),
-            dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
+        StableBlockDeque(const StableBlockDeque& sbd) : StableBlockDeque()
         {
-            if (sbd.dataptr != nullptr) {
-                dataSlotFront = sbd.dataSlotFront;
-                dataSlotBack = dataSlotFront;
-                fsize = sbd.fsize;
-                bsize = sbd.fsize + 1;
-                dataptr[dataSlotFront] = getNewBlock();
-                assign(sbd.begin(), sbd.end());
-            } else {
-                Allocator a;
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
-            }
+            assign(sbd.begin(), sbd.end());
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
             csize(sbd.csize), dataptr(sbd.dataptr),
-- 
2.43.0


From b26bb42d636d8a00bbcbf49d103be675107520fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 15/39] fix: StableBlockDeque::clear destroys elements that do
 not exist

With a single block the storage before the first element was destroyed too.
---
 gmlc/containers/StableBlockDeque.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index ffdef62..0bb3169 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -269,7 +269,10 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            // if there is only one block the elements start after fsize
+            const int firstIndex =
+                (dataSlotFront == dataSlotBack) ? fsize + 1 : 0;
+            for (int jj = bsize - 1; jj >= firstIndex;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From da7363924ae0715de9763bac0b8f081abfa985f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 16/39] fix: push_front on an empty StableBlockDeque with
 single element blocks writes before the block

---
 gmlc/containers/StableBlockDeque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 0bb3169..d7a3535 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -474,7 +474,8 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    allocateFirstBlock(blockSize / 2 - 1);
+                    // (for blocks of one element this is the only slot)
+                    allocateFirstBlock((blockSize - 1) / 2);
                     return;
                 }
                 if (dataSlotFront == 0) {
-- 
2.43.0


From 28cdc6b28685e468fa4c905690189a9a80f92462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:36 +0000
Subject: [PATCH 17/39] fix: DualMappedPointerVector::at does not compile when
 used

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..6d2fc32 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From 628414cbc75a8b91d717a87e0bc8fe0cd6e6d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 18/39] fix: removing an element with several search terms
 leaves stale terms in mapped containers

Only one term of each kind was erased. The others kept pointing at the index of
the removed element, that is at another element or past the end.
---
 gmlc/containers/DualMappedPointerVector.hpp | 86 ++++++---------------
 gmlc/containers/MappedPointerVector.hpp     | 28 +++----
 gmlc/containers/MappedVector.hpp            | 29 +++----
 gmlc/containers/StringMappedVector.hpp      | 29 +++----
 4 files changed, 52 insertions(+), 120 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 6d2fc32..8cb0603 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,30 +251,8 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeTerms(lookup1, index);
+            removeTerms(lookup2, index);
         }
 
         void remove(const searchType1& search)
@@ -283,26 +261,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +270,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
@@ -366,6 +306,24 @@ namespace containers {
             lookup2.clear();
         }
 
+      private:
+        /** remove all the search terms of a removed element and adjust the
+         * others*/
+        template<class MapType>
+        static void removeTerms(MapType& lookup, size_t index)
+        {
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
+                }
+                if (el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
+            }
+        }
+
       private:
         std::vector<std::unique_ptr<VType>> dataStorage;  //!< storage for the
                                                           //!< pointers
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..710a44c 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,16 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
+        // several search terms can refer to the same element
+        for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+            if (el2->second == index) {
+                el2 = lookup.erase(el2);
+                continue;
             }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+            if (el2->second > index) {
+                el2->second -= 1;
+            }
+            ++el2;
         }
     }
     /** remove an element based on the lookup index*/
@@ -157,14 +156,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..05d6e0d 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // several search terms can refer to the same element
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -155,15 +154,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..f1ab664 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // several search terms can refer to the same element
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -144,15 +143,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 54873484d6b18eb55af808f0219d463e7d278058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 19/39] fix: copies of string mapped vectors refer to the names
 of the original

The search terms of StringMappedVector and DualStringMappedVector are views of
names owned by the same object, the default copy operations kept views of the
names in the source.
---
 gmlc/containers/DualStringMappedVector.hpp | 23 ++++++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 23 ++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..a226dde 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,29 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        /** the search terms refer to the names in this object so a copy must
+         * build its own*/
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            for (const auto& term : other.lookup1) {
+                names.emplace_back(term.first);
+                lookup1.emplace(names.back(), term.second);
+            }
+        }
+        DualStringMappedVector(DualStringMappedVector&& other) = default;
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            if (this != &other) {
+                DualStringMappedVector copy(other);
+                *this = std::move(copy);
+            }
+            return *this;
+        }
+        DualStringMappedVector& operator=(DualStringMappedVector&& other) = default;
+        ~DualStringMappedVector() = default;
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index f1ab664..9d8ab67 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,29 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        /** the search terms refer to the names in this object so a copy must
+         * build its own*/
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            for (const auto& term : other.lookup) {
+                names.emplace_back(term.first);
+                lookup.emplace(names.back(), term.second);
+            }
+        }
+        StringMappedVector(StringMappedVector&& other) = default;
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            if (this != &other) {
+                StringMappedVector copy(other);
+                *this = std::move(copy);
+            }
+            return *this;
+        }
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+        ~StringMappedVector() = default;
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From c4a49da18f006346cfa4f18244d744084d8a6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 20/39] fix: pushing an empty vector makes an empty SimpleQueue
 report that it is not empty

---
 gmlc/containers/SimpleQueue.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..79efa11 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -143,6 +143,11 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                // nothing to add, in particular the queue must not be marked
+                // as containing elements
+                return;
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From f0a0f39a70ac29d75fa051136541a3da8f4d9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 21/39] fix: consumers of BlockingQueue and
 BlockingPriorityQueue can sleep although elements are available

---
 gmlc/containers/BlockingPriorityQueue.hpp | 15 ++++++++++++++-
 gmlc/containers/BlockingQueue.hpp         |  6 ++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..ac71690 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -268,24 +268,28 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -307,12 +311,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -320,12 +326,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -358,6 +366,7 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
@@ -365,6 +374,7 @@ the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -372,11 +382,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -407,7 +419,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -421,6 +433,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..3ddb216 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,6 +220,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -227,6 +228,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -248,6 +250,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -255,6 +258,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -287,6 +291,7 @@ contention the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -294,6 +299,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From 711a04892c54b6b7f0465947bd90c2051616522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 22/39] fix: default constructing a WorkBlock throws a
 future_error

---
 gmlc/containers/WorkQueue.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..5d883ea 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -122,11 +122,14 @@ that can be executed, functionoid, or something that implements operator()
         /** reset the work so it can run again*/
         void reset()
         {
-            if (loaded) {
+            const bool hasTask = task.valid();
+            if (loaded && hasTask) {
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (hasTask) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -197,11 +200,14 @@ that can be executed
         void wait() const { future_ret.wait(); }
         void reset()
         {
-            if (loaded) {
+            const bool hasTask = task.valid();
+            if (loaded && hasTask) {
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (hasTask) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From ecd3f20e0fe23421fb43dd1f1eba050792b10d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 23/39] fix: polling WorkBlock::isFinished while a worker
 executes the block is a data race

---
 gmlc/containers/WorkQueue.hpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 5d883ea..b23352a 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -62,7 +62,11 @@ that can be executed, functionoid, or something that implements operator()
         WorkBlock() { reset(); }
         // copy constructor intentionally omitted*/
         /** move constructor*/
-        WorkBlock(WorkBlock&& wb) = default;
+        WorkBlock(WorkBlock&& wb) noexcept :
+            task(std::move(wb.task)), future_ret(std::move(wb.future_ret)),
+            finished(wb.finished.load()), loaded(wb.loaded)
+        {
+        }
         /** constructor from a packaged task*/
         WorkBlock(std::packaged_task<retType()>&& newTask) :
             task(std::move(newTask)), loaded(true)
@@ -80,7 +84,14 @@ that can be executed, functionoid, or something that implements operator()
             reset();
         }
         /** move assignment*/
-        WorkBlock& operator=(WorkBlock&& wb) = default;
+        WorkBlock& operator=(WorkBlock&& wb) noexcept
+        {
+            task = std::move(wb.task);
+            future_ret = std::move(wb.future_ret);
+            finished = wb.finished.load();
+            loaded = wb.loaded;
+            return *this;
+        }
         /** execute the work block*/
         virtual void execute() override
         {
@@ -137,7 +148,8 @@ that can be executed, functionoid, or something that implements operator()
       private:
         std::packaged_task<retType()> task;  //!< the task to do
         std::shared_future<retType> future_ret;  //!< shared future object
-        bool finished;  //!< flag indicating the work has been done
+        std::atomic<bool> finished{
+            false};  //!< flag indicating the work has been done
         bool loaded = false;  //!< flag indicating that the task is loaded
     };
 
@@ -165,8 +177,19 @@ that can be executed
             reset();
         }
 
-        WorkBlock(WorkBlock&& wb) = default;
-        WorkBlock& operator=(WorkBlock&& wb) = default;
+        WorkBlock(WorkBlock&& wb) noexcept :
+            task(std::move(wb.task)), future_ret(std::move(wb.future_ret)),
+            finished(wb.finished.load()), loaded(wb.loaded)
+        {
+        }
+        WorkBlock& operator=(WorkBlock&& wb) noexcept
+        {
+            task = std::move(wb.task);
+            future_ret = std::move(wb.future_ret);
+            finished = wb.finished.load();
+            loaded = wb.loaded;
+            return *this;
+        }
         virtual void execute() override
         {
             if (!finished) {
@@ -214,7 +237,7 @@ that can be executed
       private:
         std::packaged_task<void()> task;
         std::shared_future<void> future_ret;
-        bool finished;
+        std::atomic<bool> finished{false};
         bool loaded = false;
     };
 
-- 
2.43.0


From 572e82ae4595ba319e2d2c8b4d7a110859e696e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 24/39] fix: WorkQueue workers can miss the notification about
 new work and sleep for seconds

---
 gmlc/containers/WorkQueue.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index b23352a..2ef0276 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -379,26 +379,21 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    queueCondition.notify_one();
-                }
+                syncWithWaiters();
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
@@ -424,6 +419,7 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                syncWithWaiters();
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -494,6 +490,9 @@ value)
         }
 
       private:
+        /** make sure that every worker which found the queue to be empty is
+        waiting for the condition before it is notified about new work*/
+        void syncWithWaiters() { std::lock_guard<std::mutex> lv(queueLock); }
         /** the main worker loop*/
         void workerLoop()
         {
@@ -503,8 +502,11 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
+                    // work may have been added before the lock was acquired
+                    if (isEmpty()) {
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                    }
                     if (halt) {
                         return;
                     }
-- 
2.43.0


From 197615e705f571085aa49ac76c7d0d8a04900374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 25/39] fix: a WorkQueue without workers executes null and
 finished blocks of a batch

---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 2ef0276..fd34533 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -423,7 +423,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if (wb && !wb->isFinished()) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From 51afe7df5c341a8a36d373dddb41f58172d8caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 26/39] fix: closing a WorkQueue never returns while executing
 work keeps adding work

---
 gmlc/containers/WorkQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index fd34533..1f43f23 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -498,7 +498,7 @@ value)
         /** the main worker loop*/
         void workerLoop()
         {
-            while (true) {
+            while (!halt.load()) {
                 if (isEmpty()) {
                     std::unique_lock<std::mutex> lv(queueLock);
                     if (halt.load()) {
-- 
2.43.0


From dd725b93ac7227659f44af32234acacc70aa01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 27/39] fix: a queue whose elements were moved away claims that
 it is not empty

Moving from a SimpleQueue, BlockingQueue or BlockingPriorityQueue left the
cached flag of the source unchanged, so that empty() was false although size()
was 0 and nothing could be popped.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index ac71690..dc9c8d5 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;  // its elements were taken
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;  // its elements were taken
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 3ddb216..e86aeb5 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;  // its elements were taken
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;  // its elements were taken
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 79efa11..aa0c156 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;  // its elements were taken
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;  // its elements were taken
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From eab4e1453a59679c09744019fe4046539ff83d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:52 +0000
Subject: [PATCH 28/39] fix: assigning elements to a blocking queue does not
 wake its waiting consumers

The move assignment takes the locks of the assigned queue but did not notify
consumers blocked in a pop. They kept sleeping on the new elements, and on
later ones, since a push only notifies when the queue was marked as empty.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index dc9c8d5..c48c4f1 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -91,6 +91,8 @@ the two locks will reduce contention in most cases.
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
             sq.queueEmptyFlag = true;  // its elements were taken
+            // consumers may be waiting for the elements that just arrived
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index e86aeb5..78a2320 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -83,6 +83,8 @@ contention the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
             sq.queueEmptyFlag = true;  // its elements were taken
+            // consumers may be waiting for the elements that just arrived
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 24bc04544389bceea2da625cfe3a4cdfd0eb282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 29/39] fix: a failing push leaves a blocking queue marked as
 filled and later pushes wake nobody

BlockingQueue and BlockingPriorityQueue cleared the empty flag before they
made the element. When making it threw, the queue claimed to hold elements for
good, and the next push did not notify consumers that were already waiting.
Insert first and change the flag afterwards, as SimpleQueue does.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 41 +++++++----------------
 gmlc/containers/BlockingQueue.hpp         | 10 +++---
 2 files changed, 18 insertions(+), 33 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index c48c4f1..7a26bad 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -122,13 +122,12 @@ the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                         // pullLock.unlock ();
@@ -136,6 +135,8 @@ the two locks will reduce contention in most cases.
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    // only now: making the element may have failed
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
@@ -157,21 +158,12 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);
+            priorityQueue.push(std::forward<Z>(val));
+            // only now: making the element may have failed
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
 
@@ -183,20 +175,20 @@ the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;  // need to set the flag again after
-                                             // we get the lock
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
                         pushLock.lock();
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
+                    // only now: making the element may have failed
+                    queueEmptyFlag = false;
 
                     condition.notify_all();
                     return;
@@ -219,21 +211,12 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);
+            priorityQueue.emplace(std::forward<Args>(args)...);
+            // only now: making the element may have failed
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
         /** try to peek at an object without popping it from the stack
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 78a2320..eb64bbf 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -123,19 +123,20 @@ contention the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                     } else {
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    // only now: making the element may have failed
+                    queueEmptyFlag = false;
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
@@ -160,19 +161,20 @@ contention the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
                         pushLock.lock();
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
+                    // only now: making the element may have failed
+                    queueEmptyFlag = false;
 
                     // pullLock.unlock ();
                     condition.notify_all();
-- 
2.43.0


From f7d3cc6667cd7580026aa978e13e8b67d25eabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:02 +0000
Subject: [PATCH 30/39] fix: copy assignment of the buffers changes nothing if
 the allocation fails

---
 gmlc/containers/CircularBuffer.hpp | 3 ++-
 gmlc/containers/StackBuffer.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index a9164ab..d1b3118 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -240,8 +240,9 @@ namespace containers {
         }
         CircularBuffer& operator=(const CircularBuffer& cb)
         {
-            buffer = cb.buffer;
+            // nothing is changed if the allocation throws
             resizeMemory(cb.actualSize, false);
+            buffer = cb.buffer;
             std::memcpy(data, cb.data, cb.actualSize);
 
             auto read_offset = buffer.next_read - buffer.origin;
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 1dce39a..7d968a3 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -206,8 +206,9 @@ blocks of raw data
         }
         StackBuffer& operator=(const StackBuffer& sq)
         {
-            stack = sq.stack;
+            // nothing is changed if the allocation throws
             resizeMemory(sq.statedSize, false);
+            stack = sq.stack;
             std::memcpy(data, sq.data, sq.statedSize);
 
             auto offset = stack.next - stack.origin;
-- 
2.43.0


From 94100064e11f452abccc39979b78256cb4a299a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:02 +0000
Subject: [PATCH 31/39] fix: removing elements from block containers does not
 fail without memory for the free list

---
 gmlc/containers/StableBlockDeque.hpp  | 24 ++++++++++++++----------
 gmlc/containers/StableBlockVector.hpp | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index d7a3535..ae2e85e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -511,17 +512,20 @@ and deallocate methods)*/
         void moveBlocktoAvailable(X* ptr)
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (0 == freeSlotsAvailable) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so the block is returned
+                    // if it can't be kept
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 35e15ba..1e126ae 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -392,17 +393,20 @@ no erase or insert
         void moveBlocktoAvailable(X* ptr)
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (0 == freeSlotsAvailable) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so the block is returned
+                    // if it can't be kept
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
-- 
2.43.0


From 5c426b5c881ac6d2a0afea0d08098f81711d8033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:02 +0000
Subject: [PATCH 32/39] fix: a bulk push into a SimpleQueue that throws leaves
 the queued elements intact

---
 gmlc/containers/SimpleQueue.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index aa0c156..0a53324 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -157,6 +157,7 @@ atomic flag indicating the queue is empty
                 pushLock.unlock();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 if (pullElements.empty()) {
+                    makeRoom(pullElements, val.size());
                     pullElements.insert(
                         pullElements.end(), val.rbegin(), val.rend());
                     queueEmptyFlag.store(false);
@@ -167,6 +168,7 @@ atomic flag indicating the queue is empty
                 pushLock.lock();
                 // LCOV_EXCL_STOP
             }
+            makeRoom(pushElements, val.size());
             pushElements.insert(pushElements.end(), val.begin(), val.end());
         }
 
@@ -237,6 +239,17 @@ atomic flag indicating the queue is empty
         }
 
       private:
+        /** make room for additional elements
+      @details an insertion that throws while it reallocates can leave the
+      elements already stored in a moved from state
+      */
+        static void makeRoom(std::vector<X>& elements, size_t count)
+        {
+            const auto required = elements.size() + count;
+            if (required > elements.capacity()) {
+                elements.reserve(std::max(required, 2 * elements.size()));
+            }
+        }
         /** If pullElements is empty check push and swap and reverse if needed
       assumes pullLock is active and pushLock is not
       */
-- 
2.43.0


From e5623cd1894602e948bb283f1ec72d0fefa97295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:57 +0000
Subject: [PATCH 33/39] fix: elements can be removed from string mapped vectors
 declared unstable

---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index a226dde..b0a3428 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -435,6 +435,11 @@ or by numerical index
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 9d8ab67..887ea52 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -215,6 +215,11 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From 99699b00d5b9f1e62e59e8bf1e42d2579270d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:14 +0000
Subject: [PATCH 34/39] fix: removing an element from the dual mapped vectors
 does not leave dangling terms without memory

---
 gmlc/containers/DualMappedVector.hpp       | 49 ++++++++--------------
 gmlc/containers/DualStringMappedVector.hpp | 49 ++++++++--------------
 2 files changed, 36 insertions(+), 62 deletions(-)

diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 4e12cf6..7a5b804 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -303,37 +303,8 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            std::vector<searchType1> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
-                }
-            }
-            std::vector<searchType2> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
-                }
-            }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
-                }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
-                }
-            }
+            removeTerms(lookup1, index, erased);
+            removeTerms(lookup2, index, erased);
         }
 
         void remove(const searchType1& search)
@@ -407,6 +378,22 @@ or by numerical index
         }
 
       private:
+        /** remove all terms of an element and close the gap if it was erased
+        @details this must not fail as the element is already removed*/
+        template<class LOOKUP>
+        static void removeTerms(LOOKUP& lookup, size_t index, bool erased)
+        {
+            for (auto term = lookup.begin(); term != lookup.end();) {
+                if (term->second == index) {
+                    term = lookup.erase(term);
+                    continue;
+                }
+                if (erased && term->second > index) {
+                    term->second -= 1;
+                }
+                ++term;
+            }
+        }
         bool localErase(std::vector<VType>& vect, size_t index)
         {
             vect.erase(vect.begin() + index);
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index b0a3428..7ec1946 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -333,37 +333,8 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            StableBlockVector<std::string_view, BLOCK_ORDER> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
-                }
-            }
-            StableBlockVector<searchType2, BLOCK_ORDER> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
-                }
-            }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
-                }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
-                }
-            }
+            removeTerms(lookup1, index, erased);
+            removeTerms(lookup2, index, erased);
         }
 
         void remove(std::string_view search)
@@ -435,6 +406,22 @@ or by numerical index
         }
 
       private:
+        /** remove all terms of an element and close the gap if it was erased
+        @details this must not fail as the element is already removed*/
+        template<class LOOKUP>
+        static void removeTerms(LOOKUP& lookup, size_t index, bool erased)
+        {
+            for (auto term = lookup.begin(); term != lookup.end();) {
+                if (term->second == index) {
+                    term = lookup.erase(term);
+                    continue;
+                }
+                if (erased && term->second > index) {
+                    term->second -= 1;
+                }
+                ++term;
+            }
+        }
         bool localErase(std::vector<VType>& vect, size_t index)
         {
             vect.erase(vect.begin() + index);
-- 
2.43.0


From 0dc56566953e316207fc37ada733c8883c6bc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:10 +0000
Subject: [PATCH 35/39] fix: pushing an element into a block container stores a
 copy, not a list holding it

---
 gmlc/containers/StableBlockDeque.hpp  | 8 ++++----
 gmlc/containers/StableBlockVector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index ae2e85e..78fe423 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -131,14 +131,14 @@ and deallocate methods)*/
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
@@ -172,14 +172,14 @@ and deallocate methods)*/
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X(val);
             --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X(std::move(val));
             --fsize;
             ++csize;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 1e126ae..0619e69 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -129,7 +129,7 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
@@ -137,7 +137,7 @@ no erase or insert
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
-- 
2.43.0


From 1a8b492c664d040ad832a50f99d1bf594815fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:10 +0000
Subject: [PATCH 36/39] fix: a push into a StableBlockVector that runs out of
 memory throws like its other insertions

---
 gmlc/containers/StableBlockVector.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 0619e69..5ea07e2 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -51,8 +51,7 @@ no erase or insert
         /** construct with a specified size*/
         explicit StableBlockVector(
             size_t startSize,
-            const X& init =
-                X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
+            const X& init = X{}) :
             // delegate so the destructor cleans up if the construction of an
             // element throws
             StableBlockVector()
@@ -125,16 +124,14 @@ no erase or insert
             ++csize;
         }
 
-        void push_back(const X& val) noexcept(
-            std::is_nothrow_copy_constructible<X>::value)
+        void push_back(const X& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
-        void push_back(X&& val) noexcept(
-            std::is_nothrow_move_constructible<X>::value)
+        void push_back(X&& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
-- 
2.43.0


From ba082a2e879b739d6c95bd8e63b5c7dded3fd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 37/39] fix: a closed work queue reports no waiting blocks

---
 gmlc/containers/WorkQueue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 1f43f23..8ddf34b 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -362,6 +362,10 @@ value)
                     thrd.join();
                 }
             }
+            // nothing is executed anymore, so nothing is waiting either
+            workToDoHigh.clear();
+            workToDoMed.clear();
+            workToDoLow.clear();
         }
 
         /** add a block of work to the WorkQueue
-- 
2.43.0


From 0155f41c187df80f18ae5d2836c9a1d37f87ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:03 +0000
Subject: [PATCH 38/39] fix: BlockIterator jumps of more than an int truncate

---
 gmlc/containers/BlockIterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index 42c5dc4..2e47f16 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -20,7 +20,7 @@ namespace containers {
       private:
         OUTER vec;
         X* ptr;
-        int offset;
+        std::ptrdiff_t offset;
 
       public:
         using iterator_category = std::bidirectional_iterator_tag;
@@ -74,7 +74,7 @@ namespace containers {
         BlockIterator& operator+=(const ptrdiff_t& movement)
         {
             ptr += movement;
-            offset += static_cast<int>(movement);
+            offset += movement;
             check();
             checkNeg();
             return (*this);
@@ -101,7 +101,7 @@ namespace containers {
         BlockIterator& operator-=(const ptrdiff_t& movement)
         {
             ptr -= movement;
-            offset -= static_cast<int>(movement);
+            offset -= movement;
             check();
             checkNeg();
             return (*this);
@@ -126,7 +126,7 @@ namespace containers {
             return temp;
         }
         template<typename OUTER2>
-        bool checkEquivalence(OUTER2 testv, int testoffset) const
+        bool checkEquivalence(OUTER2 testv, std::ptrdiff_t testoffset) const
         {
             return (
                 (testv == vec ||
-- 
2.43.0


From 3ae11fffcb0dddf129bc20dbaf847a17f1c93e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:35 +0000
Subject: [PATCH 39/39] fix: a work queue starves low priority work after many
 medium blocks

---
 gmlc/containers/WorkQueue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 8ddf34b..0a7d060 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -484,7 +484,10 @@ value)
             }
             wbb = workToDoMed.pop();
             if (wbb) {
-                ++MedCounter;
+                // no further than the ratio, the counter must not overflow
+                if (MedCounter < priorityRatio) {
+                    ++MedCounter;
+                }
                 return *wbb;
             }
             wbb = workToDoLow.pop();
-- 
2.43.0

