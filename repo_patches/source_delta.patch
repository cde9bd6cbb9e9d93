From 54cb03dd4843527f415a49c863af77ad870cc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:07 +0000
Subject: [PATCH 01/54] fix: refuse strings longer than the two-byte length in
 DataOutputStream

WriteString cast the size to uint16_t, so a string of 65536 bytes or more was
silently cut to its length modulo 65536.
---
 src/paimon/common/io/data_output_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..33f08d1 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,10 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(fmt::format("string of {} bytes is too long to write, limit is {}",
+                                           value.size(), std::numeric_limits<uint16_t>::max()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From bc5749fdd5f456b1aa8b3d2f10c4eb0e7a9eb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:07 +0000
Subject: [PATCH 02/54] fix: keep ByteArrayInputStream inside its buffer after
 refused requests

A refused seek still moved the position, so a later read could copy from before
the buffer.  The bound of a positional read wrapped around for large offsets.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..c5658fd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            position += offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    if (position < 0 || position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
@@ -71,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || static_cast<uint64_t>(size) > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From fca4d84ce4c9129d20d5df3dd2c78c918a0dc64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:26 +0000
Subject: [PATCH 03/54] fix: 64-bit bounds and stable position in
 OffsetInputStream

Positions were checked as 32-bit values, so windows beyond 2 GiB refused valid
requests or accepted invalid ones.  A refused seek or a failed read of the
wrapped stream moved the reported position away from the real one.
---
 src/paimon/common/io/offset_input_stream.cpp | 26 +++++++++++---------
 src/paimon/common/io/offset_input_stream.h   |  2 +-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..e5ab11e 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,33 +56,35 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t inner_position = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            inner_position = offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            inner_position = inner_position_ + offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            inner_position = length_ + offset;
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position));
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + inner_position, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = inner_position;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len, wrapped_->Read(buffer, size));
+    inner_position_ += actual_read_len;
+    return actual_read_len;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
@@ -122,7 +124,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From 8cf33171eb6b7992537a331ada40c87a04eb7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:39 +0000
Subject: [PATCH 04/54] fix: end of the wrapped stream is an error in
 BufferedInputStream

A direct read of the wrapped stream may return no bytes at its end, which
tripped an assertion or, without assertions, looped for ever.
---
 src/paimon/common/io/buffered_input_stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..6657812 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,11 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(fmt::format(
+                "Read failed, no more bytes available (may read eof), but expect read {} bytes",
+                size - actual_read_len));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From 05459221b545b0ada1f2f2785174ceb5d918b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 05/54] fix: stop BinaryString::Substring at the end of a
 truncated character

---
 src/paimon/common/data/binary_string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index aed44e4..1d8474b 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -245,6 +245,8 @@ BinaryString BinaryString::SubStringMultiSegs(const int32_t start, const int32_t
         index.SkipBytes(char_size, seg_size);
         c += 1;
     }
+    // a truncated last character ends with the string
+    i = std::min(i, size_in_bytes_);
 
     if (i > j) {
         std::shared_ptr<Bytes> bytes =
@@ -274,6 +276,8 @@ BinaryString BinaryString::Substring(int32_t begin_index, int32_t end_index,
             i += NumBytesForFirstByte(segment.Get(i + offset_));
             c += 1;
         }
+        // a truncated last character ends with the string
+        i = std::min(i, size_in_bytes_);
 
         if (i > j) {
             std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(i - j, pool);
-- 
2.43.0


From 84c77e5aabc77c4c01758eb9a45f9668abc3f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 06/54] fix: keep the memory pool's peak when threads allocate
 at once

---
 src/paimon/common/memory/memory_pool.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..abe9bc1 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,6 +39,13 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    // Raises the peak to a usage that was reached, also when several threads allocate at once.
+    void UpdateMaxAllocated(int64_t current) {
+        int64_t max = max_allocated.load();
+        while (max < current && !max_allocated.compare_exchange_weak(max, current)) {
+        }
+    }
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
@@ -50,16 +57,15 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    UpdateMaxAllocated(total_allocated_size.fetch_add(size) + size);
     return memptr;
 }
 
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        const int64_t delta = static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size);
+        UpdateMaxAllocated(total_allocated_size.fetch_add(delta) + delta);
         return memptr;
     } else {
         if (p == nullptr) {
@@ -71,7 +77,6 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
             total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From cebdc18179a7e9928ed0e65ae572d4213ace3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 07/54] fix: order memory segments by their first differing
 byte

---
 src/paimon/common/memory/memory_segment.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/paimon/common/memory/memory_segment.cpp b/src/paimon/common/memory/memory_segment.cpp
index 836010e..019aba1 100644
--- a/src/paimon/common/memory/memory_segment.cpp
+++ b/src/paimon/common/memory/memory_segment.cpp
@@ -18,16 +18,21 @@
 
 #include <algorithm>
 
+#include "paimon/common/utils/math.h"
+#include "paimon/io/byte_order.h"
+
 namespace paimon {
 
 int32_t MemorySegment::Compare(const MemorySegment& seg2, int32_t offset1, int32_t offset2,
                                int32_t len) const {
     while (len >= 8) {
-        // TODO(yonghao.fyh): support big endian, decide SmallEndian or BigEndian
-        // long l1 = GetLongBigEndian(offset1);
-        // long l2 = seg2.getLongBigEndian(offset2);
+        // the first differing byte decides, so words are compared in big-endian order
         uint64_t l1 = GetValue<int64_t>(offset1);
         uint64_t l2 = seg2.GetValue<int64_t>(offset2);
+        if (SystemByteOrder() == ByteOrder::PAIMON_LITTLE_ENDIAN) {
+            l1 = EndianSwapValue(l1);
+            l2 = EndianSwapValue(l2);
+        }
 
         if (l1 != l2) {
             return (l1 < l2) ? -1 : 1;
-- 
2.43.0


From d9a8e6e4f286b570b1b7e700f1246aef17cc0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 08/54] fix: refuse values below the minimum in
 BitSliceIndexRoaringBitmap

---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..78a050f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -256,6 +256,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From 7d5991159909e5e0defa7f66b0ec57ef0034ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:22 +0000
Subject: [PATCH 09/54] fix: range arithmetic up to the largest row id

---
 src/paimon/common/utils/range.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..d2c7f3d 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (current.to >= next.from || (adjacent && current.to == next.from - 1)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -124,16 +124,15 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
         if (current < intersect.value().from) {
             result.emplace_back(current, intersect.value().from - 1);
         }
+        // Nothing is left once the end is excluded
+        if (intersect.value().to == to) {
+            return result;
+        }
         // Move current position past the intersection
         current = intersect.value().to + 1;
-        if (current > to) {
-            break;
-        }
-    }
-    // Add the remaining part after all exclusions (if any)
-    if (current <= to) {
-        result.emplace_back(current, to);
     }
+    // Add the remaining part after all exclusions
+    result.emplace_back(current, to);
 
     return result;
 }
-- 
2.43.0


From 05be3ce0eae0aaa23518bdc5cd3053c17f7c4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:17 +0000
Subject: [PATCH 10/54] fix: hand a task's exception to the waiting future

---
 src/paimon/common/executor/future.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/executor/future.h b/src/paimon/common/executor/future.h
index 9f140fb..8beded4 100644
--- a/src/paimon/common/executor/future.h
+++ b/src/paimon/common/executor/future.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <exception>
 #include <functional>
 #include <future>
 #include <memory>
@@ -66,11 +67,15 @@ auto Via(Executor* executor, Func&& func) -> std::future<decltype(func())> {
 
     // Wrap the task and submit it to the executor.
     executor->Add([promise, func = std::forward<Func>(func)]() mutable {
-        if constexpr (std::is_void_v<ResultType>) {
-            func();
-            promise->set_value();
-        } else {
-            promise->set_value(func());
+        try {
+            if constexpr (std::is_void_v<ResultType>) {
+                func();
+                promise->set_value();
+            } else {
+                promise->set_value(func());
+            }
+        } catch (...) {
+            promise->set_exception(std::current_exception());
         }
     });
 
-- 
2.43.0


From 4f036619619de3b2dc1868884fc968ad14d41991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:40 +0000
Subject: [PATCH 11/54] fix: erase from LinkedHashMap through a reference to
 its own key

---
 src/paimon/common/utils/linked_hash_map.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/linked_hash_map.h b/src/paimon/common/utils/linked_hash_map.h
index 28300cc..c5ce221 100644
--- a/src/paimon/common/utils/linked_hash_map.h
+++ b/src/paimon/common/utils/linked_hash_map.h
@@ -70,12 +70,14 @@ class LinkedHashMap {
     }
 
     IteratorType erase(const K& key) {
-        if (!map_.count(key)) {
+        auto map_iter = map_.find(key);
+        if (map_iter == map_.end()) {
             return order_.end();
         }
-        auto iter = order_.erase(map_[key]);
-        map_.erase(key);
-        return iter;
+        // key may refer to the stored key, so it is not used after the node is gone
+        auto iter = map_iter->second;
+        map_.erase(map_iter);
+        return order_.erase(iter);
     }
 
     IteratorType insert(const K& key, const V& value) {
-- 
2.43.0


From 0a8be0878e080bbdfaf20853b84292ddedbab0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 12/54] fix: check lengths above 2 GB in DataInputStream

A requested size above the 32-bit signed range became negative before the
boundary check and passed it. Keep the check in 64 bits, refuse negative
lengths, and let decoders use it before they allocate.
---
 include/paimon/io/data_input_stream.h      | 8 ++++----
 src/paimon/common/io/data_input_stream.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/paimon/io/data_input_stream.h b/include/paimon/io/data_input_stream.h
index f9ca635..3c405e3 100644
--- a/include/paimon/io/data_input_stream.h
+++ b/include/paimon/io/data_input_stream.h
@@ -67,6 +67,10 @@ class PAIMON_EXPORT DataInputStream {
     /// Get the total length of the underlying input stream.
     Result<uint64_t> Length() const;
 
+    /// Check if there are enough bytes available to read.
+    /// @param need_length Number of bytes needed, negative lengths are refused.
+    Status AssertBoundary(int64_t need_length) const;
+
     /// Set the byte order for endianness conversion.
     /// @param order The byte order to use `PAIMON_BIG_ENDIAN` or `PAIMON_LITTLE_ENDIAN`.
     void SetOrder(ByteOrder order) {
@@ -79,10 +83,6 @@ class PAIMON_EXPORT DataInputStream {
     /// @param actual_read_length Actual number of bytes read.
     Status AssertReadLength(int32_t read_length, int32_t actual_read_length) const;
 
-    /// Check if there are enough bytes available to read.
-    /// @param need_length Number of bytes needed.
-    Status AssertBoundary(int32_t need_length) const;
-
     /// Determine if byte swapping is needed based on current byte order and system endianness.
     /// @return `true` if byte swapping is required, `false` otherwise.
     bool NeedSwap() const;
diff --git a/src/paimon/common/io/data_input_stream.cpp b/src/paimon/common/io/data_input_stream.cpp
index 32df025..4bcb97b 100644
--- a/src/paimon/common/io/data_input_stream.cpp
+++ b/src/paimon/common/io/data_input_stream.cpp
@@ -96,12 +96,12 @@ Status DataInputStream::AssertReadLength(int32_t read_length, int32_t actual_rea
     return Status::OK();
 }
 
-Status DataInputStream::AssertBoundary(int32_t need_length) const {
+Status DataInputStream::AssertBoundary(int64_t need_length) const {
     // TODO(jinli.zjw): Store current_pos and file_length as member variables to reduce the overhead
     // of I/O calls.
     PAIMON_ASSIGN_OR_RAISE(int64_t pos, input_stream_->GetPos());
     PAIMON_ASSIGN_OR_RAISE(uint64_t length, input_stream_->Length());
-    if (pos + need_length > static_cast<int64_t>(length)) {
+    if (need_length < 0 || need_length > static_cast<int64_t>(length) - pos) {
         return Status::Invalid(
             fmt::format("DataInputStream assert boundary failed: need length {}, current position "
                         "{}, exceed length {}",
-- 
2.43.0


From 63cabaad6b2c54cd6aa5835d917bb3acdcc4587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 13/54] fix: decode any stored byte as a boolean

Reading a byte other than 0 or 1 straight into a bool is undefined.
---
 src/paimon/common/io/data_input_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/io/data_input_stream.cpp b/src/paimon/common/io/data_input_stream.cpp
index 4bcb97b..a04512e 100644
--- a/src/paimon/common/io/data_input_stream.cpp
+++ b/src/paimon/common/io/data_input_stream.cpp
@@ -39,6 +39,11 @@ Status DataInputStream::Seek(int64_t offset) const {
 template <typename T>
 Result<T> DataInputStream::ReadValue() const {
     static_assert(std::is_trivially_copyable_v<T>, "T must be trivially copyable");
+    if constexpr (std::is_same_v<T, bool>) {
+        // any non-zero byte is true, other bytes than 0 and 1 must not be stored in a bool
+        PAIMON_ASSIGN_OR_RAISE(int8_t byte, ReadValue<int8_t>());
+        return byte != 0;
+    }
     int32_t read_length = sizeof(T);
     PAIMON_RETURN_NOT_OK(AssertBoundary(read_length));
     T value;
-- 
2.43.0


From 397f66bb9b8691fb71458e37417b63bc5df76d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 14/54] fix: refuse a blob descriptor whose uri length exceeds
 its bytes

A negative or huge stored length threw or allocated gigabytes before the
bounds of the input were looked at.
---
 src/paimon/common/data/blob_descriptor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..394d0c4 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,7 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    PAIMON_RETURN_NOT_OK(in.AssertBoundary(uri_length));
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From cfe04db13d134d87fb8c5c42b474eec6267b1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 15/54] fix: refuse a deletion file list longer than its bytes

A negative or huge stored count threw from the vector reservation.
---
 src/paimon/core/table/source/deletion_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..8465f2d 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,6 +95,8 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
+            // each entry takes at least one byte
+            PAIMON_RETURN_NOT_OK(in->AssertBoundary(size));
             files.reserve(size);
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
-- 
2.43.0


From a927e436da60466f5a873d53cba38ace7e29970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 16/54] fix: refuse an index result whose lengths exceed its
 bytes

A negative or huge stored bitmap length or score count was allocated
before the bounds of the input were looked at.
---
 src/paimon/common/global_index/global_index_result.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..b566cd1 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,7 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    PAIMON_RETURN_NOT_OK(in.AssertBoundary(bitmap_bytes_len));
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
@@ -126,6 +127,7 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
     if (score_len != bitmap.Cardinality()) {
         return Status::Invalid("row id count mismatches score count");
     }
+    PAIMON_RETURN_NOT_OK(in.AssertBoundary(static_cast<int64_t>(score_len) * sizeof(float)));
     std::vector<float> scores;
     scores.reserve(score_len);
     for (int32_t i = 0; i < score_len; i++) {
-- 
2.43.0


From 4c6fc5bc4e0e299795a750e0c7ee40cdfe5b9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 17/54] fix: refuse a serialized row whose length or arity
 exceeds its bytes

A negative or huge stored length was allocated before the bounds of the
input were looked at, and a huge arity made later field reads leave the
row.
---
 src/paimon/common/utils/serialization_utils.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/paimon/common/utils/serialization_utils.h b/src/paimon/common/utils/serialization_utils.h
index 0bcd155..8c7ad2e 100644
--- a/src/paimon/common/utils/serialization_utils.h
+++ b/src/paimon/common/utils/serialization_utils.h
@@ -82,6 +82,13 @@ class SerializationUtils {
         if (PAIMON_UNLIKELY(arity < 0)) {
             return Status::Invalid("arity is less than 0");
         }
+        int64_t row_size = static_cast<int64_t>(bytes->size()) - 4;
+        if (PAIMON_UNLIKELY(
+                arity > 0 && (arity > row_size / 8 ||
+                              BinaryRow::CalculateFixPartSizeInBytes(arity) > row_size))) {
+            return Status::Invalid(
+                fmt::format("arity {} does not fit in {} bytes", arity, bytes->size()));
+        }
         BinaryRow row(arity);
         row.PointTo(MemorySegment::Wrap(bytes), 4, bytes->size() - 4);
         return row;
@@ -91,6 +98,7 @@ class SerializationUtils {
     static Result<BinaryRow> DeserializeBinaryRow(DataInputStream* input, MemoryPool* pool) {
         int32_t read_length = -1;
         PAIMON_ASSIGN_OR_RAISE(read_length, input->ReadValue<int32_t>());
+        PAIMON_RETURN_NOT_OK(input->AssertBoundary(read_length));
         std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(read_length, pool);
         PAIMON_RETURN_NOT_OK(input->ReadBytes(bytes.get()));
         return DeserializeBinaryRow(bytes);
-- 
2.43.0


From ced39adca22ec6374a26d98f44a25d1c8d51d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 18/54] fix: refuse a bit-sliced index with an impossible slice
 count

A negative or huge stored count threw from the vector reservation, and
more than 64 slices made comparisons shift beyond the value width.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 78a050f..ffe9ca0 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,10 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice number {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
-- 
2.43.0


From dc2906129585d629226453bdbabb6ba8da8003e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 19/54] fix: leave the caller's bytes alone in
 Decimal::FromUnscaledBytes

The bytes were reversed in place, so decoding the same buffer twice gave
two different values.
---
 src/paimon/common/data/decimal.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/data/decimal.cpp b/src/paimon/common/data/decimal.cpp
index a7b7055..9d5afa8 100644
--- a/src/paimon/common/data/decimal.cpp
+++ b/src/paimon/common/data/decimal.cpp
@@ -89,15 +89,15 @@ std::vector<char> Decimal::ToUnscaledBytes() const {
 }
 
 Decimal Decimal::FromUnscaledBytes(int32_t precision, int32_t scale, Bytes* bytes) {
-    if (SystemByteOrder() == ByteOrder::PAIMON_LITTLE_ENDIAN) {
-        std::reverse(bytes->data(), bytes->data() + bytes->size());
-    }
     Decimal::int128_t value = 0;
     for (size_t i = 0; i < bytes->size(); ++i) {
-        value |= static_cast<Decimal::uint128_t>(static_cast<uint8_t>((*bytes)[i])) << (8 * i);
+        // unscaled bytes are big-endian
+        value |= static_cast<Decimal::uint128_t>(
+                     static_cast<uint8_t>((*bytes)[bytes->size() - 1 - i]))
+                 << (8 * i);
     }
     // for negative
-    if ((*bytes)[bytes->size() - 1] & 0x80) {
+    if ((*bytes)[0] & 0x80) {
         for (size_t i = bytes->size(); i < sizeof(Decimal::int128_t); ++i) {
             value |= static_cast<Decimal::uint128_t>(0xFFull) << (8 * i);
         }
-- 
2.43.0


From 333bee4db1180d0fc7729e0dcc5581f88b7e6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:22 +0000
Subject: [PATCH 20/54] fix: do not count the leading zeros of zero in Decimal

The builtin is undefined for zero, which every unscaled value below 2^64
reached through its upper half.
---
 src/paimon/common/data/decimal.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/paimon/common/data/decimal.cpp b/src/paimon/common/data/decimal.cpp
index 9d5afa8..6aa2b86 100644
--- a/src/paimon/common/data/decimal.cpp
+++ b/src/paimon/common/data/decimal.cpp
@@ -108,9 +108,10 @@ Decimal Decimal::FromUnscaledBytes(int32_t precision, int32_t scale, Bytes* byte
 int32_t Decimal::clz_u128(uint128_t u) {
     uint64_t hi = u >> 64;
     uint64_t lo = u;
-    int32_t retval[3] = {__builtin_clzll(hi), __builtin_clzll(lo) + 64, 128};
-    int32_t idx = !hi + ((!lo) & (!hi));
-    return retval[idx];
+    if (hi != 0) {
+        return __builtin_clzll(hi);
+    }
+    return lo != 0 ? __builtin_clzll(lo) + 64 : 128;
 }
 
 int32_t Decimal::count_leading_zero_bytes(uint128_t u) {
-- 
2.43.0


From 2505f0ae8f2460dfdd671cadef5ead35fde564fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:44 +0000
Subject: [PATCH 21/54] fix: refuse bitmap index metadata whose lengths exceed
 its bytes

A negative or huge stored string length or entry count was allocated
before the bounds of the input were looked at.
---
 src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp | 3 ++-
 .../common/file_index/bitmap/bitmap_file_index_meta_v2.cpp     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
index 366ba45..32a59a0 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
@@ -98,8 +98,9 @@ Result<std::function<Result<Literal>()>> BitmapFileIndexMeta::GetValueReader(
         case FieldType::STRING: {
             std::function<Result<Literal>()> func = [&in, move_body_start, field_type,
                                                      this]() -> Result<Literal> {
-                PAIMON_ASSIGN_OR_RAISE(uint32_t length,
+                PAIMON_ASSIGN_OR_RAISE(int32_t length,
                                        ReadAndMoveBodyStart<int32_t>(in, move_body_start));
+                PAIMON_RETURN_NOT_OK(in->AssertBoundary(length));
                 if (move_body_start) {
                     body_start_ += length;
                 }
diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
index 5ed1ed3..fc35908 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
@@ -204,6 +204,8 @@ Status BitmapFileIndexMetaV2::BitmapIndexBlock::TryDeserialize() {
         PAIMON_ASSIGN_OR_RAISE(std::function<Result<Literal>()> value_reader,
                                outer_->GetValueReader(in, /*move_body_start=*/false));
         PAIMON_ASSIGN_OR_RAISE(int32_t entry_num, in->ReadValue<int32_t>());
+        // each entry takes at least its offset and length
+        PAIMON_RETURN_NOT_OK(in->AssertBoundary(int64_t{8} * entry_num));
         entry_list.reserve(entry_num);
         for (int32_t i = 0; i < entry_num; i++) {
             PAIMON_ASSIGN_OR_RAISE(Literal key, value_reader());
-- 
2.43.0


From 64060c180da60137f53b1985eb3ec0b2e3caaeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:02 +0000
Subject: [PATCH 22/54] fix: refuse a file index head longer than its file

A head length below its own fixed part or beyond the file was allocated
before the bounds of the input were looked at.
---
 src/paimon/common/file_index/file_index_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/file_index/file_index_format.cpp b/src/paimon/common/file_index/file_index_format.cpp
index bd59f67..5945ee5 100644
--- a/src/paimon/common/file_index/file_index_format.cpp
+++ b/src/paimon/common/file_index/file_index_format.cpp
@@ -57,7 +57,12 @@ class FileIndexFormatReaderImpl : public FileIndexFormat::Reader {
                             version, FileIndexFormat::V_1));
         }
         PAIMON_ASSIGN_OR_RAISE(int32_t head_length, data_input_stream.ReadValue<int32_t>());
-        auto head_bytes = std::make_unique<Bytes>(head_length - 8 - 4 - 4, pool.get());
+        int64_t head_size = static_cast<int64_t>(head_length) - 8 - 4 - 4;
+        if (head_size < static_cast<int64_t>(sizeof(int32_t))) {
+            return Status::Invalid(fmt::format("invalid file index head length {}", head_length));
+        }
+        PAIMON_RETURN_NOT_OK(data_input_stream.AssertBoundary(head_size));
+        auto head_bytes = std::make_unique<Bytes>(head_size, pool.get());
         PAIMON_RETURN_NOT_OK(data_input_stream.ReadBytes(head_bytes.get()));
 
         auto byte_array_input_stream =
-- 
2.43.0


From 6f7d647d087abe7a9581ad9fca1f4b8e6d976d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:02 +0000
Subject: [PATCH 23/54] fix: refuse a deletion vector longer than its file

A negative or huge stored length was allocated before the bounds of the
file were looked at.
---
 src/paimon/core/deletionvectors/deletion_vector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paimon/core/deletionvectors/deletion_vector.cpp b/src/paimon/core/deletionvectors/deletion_vector.cpp
index e11a125..6c3827b 100644
--- a/src/paimon/core/deletionvectors/deletion_vector.cpp
+++ b/src/paimon/core/deletionvectors/deletion_vector.cpp
@@ -46,6 +46,7 @@ Result<PAIMON_UNIQUE_PTR<DeletionVector>> DeletionVector::Read(const FileSystem*
             fmt::format("Size not match, actual size: {}, expect size: {}, , file path: {}",
                         actual_length, deletion_file.length, deletion_file.path));
     }
+    PAIMON_RETURN_NOT_OK(file_input_stream.AssertBoundary(deletion_file.length));
     auto bytes = Bytes::AllocateBytes(deletion_file.length, pool);
     PAIMON_RETURN_NOT_OK(file_input_stream.ReadBytes(bytes.get()));
     return DeserializeFromBytes(bytes.get(), pool);
-- 
2.43.0


From 54ac3ce1d59064b6d8b1086e3fb916d1d53203ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:50 +0000
Subject: [PATCH 24/54] fix: stop reading a damaged 64-bit bitmap at the end of
 its bytes

The size of an inner bitmap is recomputed from its containers. For
damaged bytes it can exceed what is left, the remaining length wrapped
around and the next key was read behind the buffer.
---
 third_party/roaring_bitmap/roaring.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/third_party/roaring_bitmap/roaring.hh b/third_party/roaring_bitmap/roaring.hh
index ff0c17b..0d45117 100644
--- a/third_party/roaring_bitmap/roaring.hh
+++ b/third_party/roaring_bitmap/roaring.hh
@@ -2228,6 +2228,9 @@ public:
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
             size_t tz = read_var.getSizeInBytes(true);
+            if (maxbytes < tz) {
+                ROARING_TERMINATE("ran out of bytes");
+            }
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
-- 
2.43.0


From 56847fa10929674bb0e0987a9fc8345dca51cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:40 +0000
Subject: [PATCH 25/54] fix: publish singletons with acquire/release ordering

GetInstance read the pointer outside the lock while another thread could be writing it.
---
 src/paimon/common/factories/singleton.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/factories/singleton.cpp b/src/paimon/common/factories/singleton.cpp
index a973225..c9397ba 100644
--- a/src/paimon/common/factories/singleton.cpp
+++ b/src/paimon/common/factories/singleton.cpp
@@ -19,6 +19,7 @@
 
 #include "paimon/factories/singleton.h"
 
+#include <atomic>
 #include <mutex>
 
 #include "paimon/common/factories/io_hook.h"
@@ -28,15 +29,18 @@ namespace paimon {
 
 template <typename T, typename InstPolicy>
 T* Singleton<T, InstPolicy>::GetInstance() {
-    static T* ptr;
+    static std::atomic<T*> ptr;
     static std::mutex mutex;
-    if (PAIMON_UNLIKELY(!ptr)) {
+    T* instance = ptr.load(std::memory_order_acquire);
+    if (PAIMON_UNLIKELY(!instance)) {
         std::lock_guard<std::mutex> lg(mutex);
-        if (!ptr) {
-            InstPolicy::Create(ptr);
+        instance = ptr.load(std::memory_order_relaxed);
+        if (!instance) {
+            InstPolicy::Create(instance);
+            ptr.store(instance, std::memory_order_release);
         }
     }
-    return const_cast<T*>(ptr);
+    return instance;
 }
 
 template class Singleton<FactoryCreator>;
-- 
2.43.0


From 210d3941cf5b76fe744459aecb66a8e0ae4c8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:40 +0000
Subject: [PATCH 26/54] fix: rename local files given with a scheme

Rename checked the normalised paths but passed the original text, scheme included, to the system call.
---
 src/paimon/fs/local/local_file_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..0dd7255 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,7 +224,7 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 609e007a38126f8a6a2d582217ac5fa09aade973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:52 +0000
Subject: [PATCH 27/54] fix: let only one of two concurrent renames to a path
 succeed

The destination was checked before the call, so a file created in between was replaced
and two atomic stores of the same path both reported success.
---
 src/paimon/fs/local/local_file_system.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 0dd7255..57f50be 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,8 +224,22 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
+    const char* src_path = src_file.GetAbsolutePath().c_str();
+    const char* dst_path = dst_file.GetAbsolutePath().c_str();
+#ifdef RENAME_NOREPLACE
+    // refuse a destination that appeared after the check above
+    int32_t ret = ::renameat2(AT_FDCWD, src_path, AT_FDCWD, dst_path, RENAME_NOREPLACE);
+    if (ret != 0 && (errno == EINVAL || errno == ENOSYS)) {
+        ret = ::rename(src_path, dst_path);
+    }
+#else
+    int32_t ret = ::rename(src_path, dst_path);
+#endif
+    if (ret != 0) {
         int32_t cur_errno = errno;
+        if (cur_errno == EEXIST) {
+            return Status::Invalid(err_msg, "dst file already exist");
+        }
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
     return Status::OK();
-- 
2.43.0


From a254b563d2a0f9be0d3b06b6b983ed35a18e2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:52 +0000
Subject: [PATCH 28/54] fix: report a failed close when writing a whole file

WriteFile and AtomicStore returned success although closing the stream had failed.
---
 src/paimon/common/fs/file_system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/fs/file_system.cpp b/src/paimon/common/fs/file_system.cpp
index 262973e..6c42c8c 100644
--- a/src/paimon/common/fs/file_system.cpp
+++ b/src/paimon/common/fs/file_system.cpp
@@ -76,8 +76,9 @@ Status FileSystem::WriteFile(const std::string& path, const std::string& content
                                                path, length, write_length));
         }
         PAIMON_RETURN_NOT_OK(out->Flush());
+        guard.Release();
     }
-    return Status::OK();
+    return out->Close();
 }
 
 Status FileSystem::AtomicStore(const std::string& path, const std::string& content) {
-- 
2.43.0


From 687efb98f0fe5f5f6aded8996502729fc20ba515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:52 +0000
Subject: [PATCH 29/54] fix: return the text unchanged when replacing an empty
 string

Replace never ended for an empty search string.
---
 src/paimon/common/utils/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/utils/string_utils.cpp b/src/paimon/common/utils/string_utils.cpp
index 88312d0..3cf7b56 100644
--- a/src/paimon/common/utils/string_utils.cpp
+++ b/src/paimon/common/utils/string_utils.cpp
@@ -29,6 +29,9 @@
 namespace paimon {
 std::string StringUtils::Replace(const std::string& text, const std::string& search_string,
                                  const std::string& replacement, int32_t max) {
+    if (search_string.empty()) {
+        return text;
+    }
     std::string str = text;
     size_t pos = str.find(search_string);
     int32_t count = 0;
-- 
2.43.0


From d4fca52e6a6eb55af18b766e20fc7f3b085e354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:12 +0000
Subject: [PATCH 30/54] fix: let a failed local read not spoil later reads

A read error stayed set on the stream, so every later read was refused even after seeking back.
---
 src/paimon/fs/local/local_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index c9a1381..610fa88 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -211,6 +211,8 @@ Result<int32_t> LocalFile::Read(char* buffer, uint32_t length) {
         while (more > 0) {
             ret = fread(buffer + off, 1, more, file_);
             if (ferror(file_) != 0) {
+                // the error belongs to this request only
+                clearerr(file_);
                 return Status::IOError(
                     fmt::format("read file '{}' fail at off {}, with error {}, ec: {}", path_, off,
                                 strerror(errno), std::strerror(errno)));
-- 
2.43.0


From 338f4cfba92907e3bff453e9339eec54ee848ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 31/54] fix: order keys ascending whatever the order of the
 sequence fields

---
 src/paimon/core/operation/file_store_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/file_store_write.cpp b/src/paimon/core/operation/file_store_write.cpp
index ac21d0c..7907a32 100644
--- a/src/paimon/core/operation/file_store_write.cpp
+++ b/src/paimon/core/operation/file_store_write.cpp
@@ -144,7 +144,7 @@ Result<std::unique_ptr<FileStoreWrite>> FileStoreWrite::Create(std::unique_ptr<W
                                schema->GetFields(trimmed_primary_keys));
         PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<FieldsComparator> key_comparator,
                                FieldsComparator::Create(trimmed_primary_key_fields,
-                                                        options.SequenceFieldSortOrderIsAscending(),
+                                                        /*is_ascending_order=*/true,
                                                         /*use_view=*/true));
         auto primary_keys = schema->PrimaryKeys();
         PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From d93add0e1cab2d69d514a43e331c53366f4aa45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 32/54] fix: sort a written batch by the configured order of
 the sequence fields

---
 src/paimon/core/io/key_value_in_memory_record_reader.cpp | 7 +++++--
 src/paimon/core/io/key_value_in_memory_record_reader.h   | 3 ++-
 src/paimon/core/mergetree/merge_tree_writer.cpp          | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 1297fed..2377b99 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -75,10 +75,11 @@ KeyValueInMemoryRecordReader::KeyValueInMemoryRecordReader(
     const std::vector<std::string>& user_defined_sequence_fields,
     const std::shared_ptr<FieldsComparator>& key_comparator,
     const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-    const std::shared_ptr<MemoryPool>& pool)
+    const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending)
     : last_sequence_num_(last_sequence_num),
       primary_keys_(primary_keys),
       user_defined_sequence_fields_(user_defined_sequence_fields),
+      sequence_fields_ascending_(sequence_fields_ascending),
       pool_(pool),
       value_struct_array_(std::move(struct_array)),
       row_kinds_(std::move(row_kinds)),
@@ -125,7 +126,9 @@ KeyValueInMemoryRecordReader::SortBatch() const {
         sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
     }
     for (const auto& name : user_defined_sequence_fields_) {
-        sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
+        sort_keys.emplace_back(name, sequence_fields_ascending_
+                                         ? arrow::compute::SortOrder::Ascending
+                                         : arrow::compute::SortOrder::Descending);
     }
     auto sort_options =
         arrow::compute::SortOptions(sort_keys, arrow::compute::NullPlacement::AtStart);
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index ec6f7b0..295be3f 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -51,7 +51,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
         const std::vector<std::string>& user_defined_sequence_fields,
         const std::shared_ptr<FieldsComparator>& key_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-        const std::shared_ptr<MemoryPool>& pool);
+        const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending = true);
 
     class Iterator : public KeyValueRecordReader::Iterator {
      public:
@@ -82,6 +82,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
     int64_t last_sequence_num_ = -1;
     std::vector<std::string> primary_keys_;
     std::vector<std::string> user_defined_sequence_fields_;
+    bool sequence_fields_ascending_ = true;
     std::shared_ptr<MemoryPool> pool_;
     std::shared_ptr<arrow::StructArray> value_struct_array_;
     std::vector<RecordBatch::RowKind> row_kinds_;
diff --git a/src/paimon/core/mergetree/merge_tree_writer.cpp b/src/paimon/core/mergetree/merge_tree_writer.cpp
index db9216f..8d89d05 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.cpp
+++ b/src/paimon/core/mergetree/merge_tree_writer.cpp
@@ -131,7 +131,7 @@ Status MergeTreeWriter::Flush() {
         auto in_memory_reader = std::make_unique<KeyValueInMemoryRecordReader>(
             sequence_number, std::move(batch_vec_[i]), std::move(row_kinds_vec_[i]),
             trimmed_primary_keys_, options_.GetSequenceField(), key_comparator_,
-            merge_function_wrapper_, pool_);
+            merge_function_wrapper_, pool_, options_.SequenceFieldSortOrderIsAscending());
         readers.push_back(std::move(in_memory_reader));
     }
     batch_vec_.clear();
-- 
2.43.0


From f21a34a3477563abba131370db70e0ed67260f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 33/54] fix: clean orphan files with the options of the table

---
 src/paimon/core/operation/orphan_files_cleaner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner.cpp b/src/paimon/core/operation/orphan_files_cleaner.cpp
index fd9d849..e2e23e0 100644
--- a/src/paimon/core/operation/orphan_files_cleaner.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner.cpp
@@ -164,7 +164,7 @@ Result<std::unique_ptr<OrphanFilesCleaner>> OrphanFilesCleaner::Create(
     for (const auto& [key, value] : ctx->GetOptions()) {
         opts[key] = value;
     }
-    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(ctx->GetOptions()));
+    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(opts));
     auto arrow_schema = DataField::ConvertDataFieldsToArrowSchema(schema->Fields());
     PAIMON_ASSIGN_OR_RAISE(std::vector<std::string> external_paths, options.CreateExternalPaths());
     PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 35fe2c533802079839647058b7c5f5988125a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 34/54] fix: wait for the directory listings when finding the
 used files fails

---
 src/paimon/core/operation/orphan_files_cleaner_impl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..1ea9865 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -96,6 +96,13 @@ Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
         file_statuses_futures.push_back(
             Via(executor_.get(), [this, dir] { return TryBestListingDirs(dir); }));
     }
+    ScopeGuard listing_guard([&file_statuses_futures]() {
+        for (auto& future : file_statuses_futures) {
+            if (future.valid()) {
+                future.wait();
+            }
+        }
+    });
     PAIMON_ASSIGN_OR_RAISE(std::set<std::string> used_file_names, GetUsedFiles());
 
     std::set<std::string> need_to_deletes;
-- 
2.43.0


From 62090f846a1e2910b3d8546af112606e150cf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 35/54] fix: write a batch in which all records of a key are
 ignored

---
 .../io/key_value_in_memory_record_reader.cpp  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 2377b99..42162c6 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -40,9 +40,8 @@ class MemoryPool;
 
 Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     reader_->merge_function_wrapper_->Reset();
-    std::shared_ptr<InternalRow> current_key;
-    while (cursor_ < reader_->value_struct_array_->length()) {
-        uint64_t index = reader_->sort_indices_->Value(cursor_);
+    auto create_key_value = [this](int64_t cursor) -> Result<KeyValue> {
+        uint64_t index = reader_->sort_indices_->Value(cursor);
         const RowKind* row_kind = RowKind::Insert();
         if (!reader_->row_kinds_.empty()) {
             PAIMON_ASSIGN_OR_RAISE(
@@ -53,8 +52,12 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
                                                  reader_->pool_, index);
         auto value = std::make_unique<ColumnarRow>(reader_->value_struct_array_,
                                                    reader_->value_fields_, reader_->pool_, index);
-        KeyValue kv(row_kind, reader_->last_sequence_num_ + index,
-                    /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+        return KeyValue(row_kind, reader_->last_sequence_num_ + index,
+                        /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+    };
+    std::shared_ptr<InternalRow> current_key;
+    while (cursor_ < reader_->value_struct_array_->length()) {
+        PAIMON_ASSIGN_OR_RAISE(KeyValue kv, create_key_value(cursor_));
         if (current_key == nullptr) {
             current_key = kv.key;
         } else if (reader_->key_comparator_->CompareTo(*current_key, *kv.key) != 0) {
@@ -65,7 +68,11 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     }
     PAIMON_ASSIGN_OR_RAISE(std::optional<KeyValue> result,
                            reader_->merge_function_wrapper_->GetResult());
-    assert(result != std::nullopt);
+    if (result == std::nullopt) {
+        // the merge function ignores all the records of this key, keep the last one as a single
+        // record is kept
+        return create_key_value(cursor_ - 1);
+    }
     return std::move(result).value();
 }
 
-- 
2.43.0


From 478bc2c45f535cd4c950788534934e3ffc05e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 36/54] fix: keep the key fields of a row removed by a partial
 update

---
 .../compact/partial_update_merge_function.cpp | 25 +++++++++++++++----
 .../compact/partial_update_merge_function.h   |  7 +++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 70f9439..4b88d31 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -42,14 +42,15 @@ PartialUpdateMergeFunction::PartialUpdateMergeFunction(
     std::vector<InternalRow::FieldGetterFunc>&& getters,
     std::map<int32_t, std::shared_ptr<FieldsComparator>>&& field_comparators,
     std::map<int32_t, std::shared_ptr<FieldAggregator>>&& field_aggregators,
-    std::set<int32_t>&& sequence_group_partial_delete)
+    std::set<int32_t>&& sequence_group_partial_delete, std::vector<int32_t>&& not_null_fields)
     : ignore_delete_(ignore_delete),
       remove_record_on_delete_(remove_record_on_delete),
       field_sequence_enabled_(field_sequence_enabled),
       getters_(std::move(getters)),
       field_comparators_(std::move(field_comparators)),
       field_aggregators_(std::move(field_aggregators)),
-      sequence_group_partial_delete_(std::move(sequence_group_partial_delete)) {}
+      sequence_group_partial_delete_(std::move(sequence_group_partial_delete)),
+      not_null_fields_(std::move(not_null_fields)) {}
 
 Status PartialUpdateMergeFunction::ParseSequenceGroupFields(
     const CoreOptions& options,
@@ -168,11 +169,17 @@ Result<std::unique_ptr<PartialUpdateMergeFunction>> PartialUpdateMergeFunction::
     // 4. create data getters
     PAIMON_ASSIGN_OR_RAISE(std::vector<InternalRow::FieldGetterFunc> getters,
                            InternalRowUtils::CreateFieldGetters(value_schema, /*use_view=*/true));
+    std::vector<int32_t> not_null_fields;
+    for (int32_t i = 0; i < value_schema->num_fields(); i++) {
+        if (!value_schema->field(i)->nullable()) {
+            not_null_fields.push_back(i);
+        }
+    }
     return std::unique_ptr<PartialUpdateMergeFunction>(new PartialUpdateMergeFunction(
         ignore_delete, remove_record_on_delete,
         /*field_sequence_enabled=*/!value_field_to_seq_group_field.empty(), std::move(getters),
         std::move(field_comparators), std::move(field_aggregators),
-        std::move(sequence_group_partial_delete)));
+        std::move(sequence_group_partial_delete), std::move(not_null_fields)));
 }
 Result<std::map<int32_t, std::shared_ptr<FieldsComparator>>>
 PartialUpdateMergeFunction::CreateFieldSeqComparator(
@@ -285,7 +292,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         if (remove_record_on_delete_) {
             if (kv.value_kind == RowKind::Delete()) {
                 current_delete_row_ = true;
-                row_ = std::make_unique<GenericRow>(getters_.size());
+                ResetRow(std::move(kv));
             }
             return Status::OK();
         }
@@ -306,6 +313,14 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     return Status::OK();
 }
 
+void PartialUpdateMergeFunction::ResetRow(KeyValue&& kv) {
+    row_ = std::make_unique<GenericRow>(getters_.size());
+    for (const auto& field_idx : not_null_fields_) {
+        row_->SetField(field_idx, getters_[field_idx](*(kv.value)));
+    }
+    row_->AddDataHolder(std::move(kv.value));
+}
+
 void PartialUpdateMergeFunction::UpdateNonNullFields(KeyValue&& kv) {
     for (size_t i = 0; i < getters_.size(); ++i) {
         VariantType field = getters_[i](*(kv.value));
@@ -382,7 +397,7 @@ Status PartialUpdateMergeFunction::RetractWithSequenceGroup(KeyValue&& kv) {
                                 sequence_group_partial_delete_.find(field_idx) !=
                                     sequence_group_partial_delete_.end()) {
                                 current_delete_row_ = true;
-                                row_ = std::make_unique<GenericRow>(getters_.size());
+                                ResetRow(std::move(kv));
                                 return Status::OK();
                             } else {
                                 row_->SetField(field_idx, getters_[field_idx](*(kv.value)));
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index fb78abe..f63dc6d 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -90,7 +90,8 @@ class PartialUpdateMergeFunction : public MergeFunction {
         std::vector<InternalRow::FieldGetterFunc>&& getters,
         std::map<int32_t, std::shared_ptr<FieldsComparator>>&& field_comparators,
         std::map<int32_t, std::shared_ptr<FieldAggregator>>&& field_aggregators,
-        std::set<int32_t>&& sequence_group_partial_delete);
+        std::set<int32_t>&& sequence_group_partial_delete,
+        std::vector<int32_t>&& not_null_fields);
 
     static Result<std::map<int32_t, std::shared_ptr<FieldsComparator>>> CreateFieldSeqComparator(
         const std::shared_ptr<arrow::Schema>& value_schema,
@@ -105,6 +106,9 @@ class PartialUpdateMergeFunction : public MergeFunction {
     bool IsEmptySequenceGroup(const KeyValue& kv,
                               const std::shared_ptr<FieldsComparator>& comparator) const;
 
+    /// Start over with an empty row that keeps the fields which cannot be null (e.g. primary keys).
+    void ResetRow(KeyValue&& kv);
+
     void UpdateNonNullFields(KeyValue&& kv);
 
     void UpdateWithSequenceGroup(KeyValue&& kv);
@@ -119,6 +123,7 @@ class PartialUpdateMergeFunction : public MergeFunction {
     std::map<int32_t, std::shared_ptr<FieldsComparator>> field_comparators_;
     std::map<int32_t, std::shared_ptr<FieldAggregator>> field_aggregators_;
     std::set<int32_t> sequence_group_partial_delete_;
+    std::vector<int32_t> not_null_fields_;
 
     std::shared_ptr<InternalRow> current_key_;
     std::unique_ptr<GenericRow> row_;
-- 
2.43.0


From c6873a8bdd213bf8429916c7073c2bb1526d7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 37/54] fix: number a partial update by its last record, also
 when that is a retraction

---
 .../core/mergetree/compact/partial_update_merge_function.cpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 4b88d31..6481c69 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -285,6 +285,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         if (ignore_delete_) {
             return Status::OK();
         }
+        last_seq_num_ = kv.sequence_number;
         if (field_sequence_enabled_) {
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
-- 
2.43.0


From 1e5cefd22108e4f2574d91e1a1130372706b2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:46 +0000
Subject: [PATCH 38/54] fix: make no row out of records that a partial update
 ignores

---
 .../mergetree/compact/partial_update_merge_function.cpp     | 3 +++
 .../core/mergetree/compact/partial_update_merge_function.h  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 6481c69..2b6f010 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -287,12 +287,14 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         }
         last_seq_num_ = kv.sequence_number;
         if (field_sequence_enabled_) {
+            updated_ = true;
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
         }
         if (remove_record_on_delete_) {
             if (kv.value_kind == RowKind::Delete()) {
                 current_delete_row_ = true;
+                updated_ = true;
                 ResetRow(std::move(kv));
             }
             return Status::OK();
@@ -306,6 +308,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             "columns.");
     }
     last_seq_num_ = kv.sequence_number;
+    updated_ = true;
     if (field_comparators_.empty()) {
         UpdateNonNullFields(std::move(kv));
     } else {
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index f63dc6d..d4b03be 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -70,6 +70,7 @@ class PartialUpdateMergeFunction : public MergeFunction {
     void Reset() override {
         current_key_.reset();
         row_ = std::make_unique<GenericRow>(getters_.size());
+        updated_ = false;
         for (auto& [_, agg] : field_aggregators_) {
             assert(agg);
             agg->Reset();
@@ -79,6 +80,10 @@ class PartialUpdateMergeFunction : public MergeFunction {
     Status Add(KeyValue&& kv) override;
 
     Result<std::optional<KeyValue>> GetResult() override {
+        if (!updated_) {
+            // all records were ignored
+            return std::optional<KeyValue>();
+        }
         return std::optional<KeyValue>(
             KeyValue(current_delete_row_ ? RowKind::Delete() : RowKind::Insert(), last_seq_num_,
                      KeyValue::UNKNOWN_LEVEL, std::move(current_key_), std::move(row_)));
@@ -129,5 +134,6 @@ class PartialUpdateMergeFunction : public MergeFunction {
     std::unique_ptr<GenericRow> row_;
     int64_t last_seq_num_ = KeyValue::UNKNOWN_SEQUENCE;
     bool current_delete_row_ = false;
+    bool updated_ = false;
 };
 }  // namespace paimon
-- 
2.43.0


From 91e48a23b515f1515478ad138225833548aff83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:39 +0000
Subject: [PATCH 39/54] fix: keep the key fields of a row that starts with a
 retraction

---
 .../mergetree/compact/partial_update_merge_function.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 2b6f010..d94efa1 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -287,6 +287,12 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         }
         last_seq_num_ = kv.sequence_number;
         if (field_sequence_enabled_) {
+            if (!updated_) {
+                // a row that starts with a retraction has key fields, too
+                for (const auto& field_idx : not_null_fields_) {
+                    row_->SetField(field_idx, getters_[field_idx](*(kv.value)));
+                }
+            }
             updated_ = true;
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
-- 
2.43.0


From f105efe033b380f1390d4d85e794544eff5d6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:51 +0000
Subject: [PATCH 40/54] fix: let merged rows not outlive the readers they come
 from

---
 .../mergetree/compact/sort_merge_reader_with_loser_tree.h    | 5 +++++
 .../core/mergetree/compact/sort_merge_reader_with_min_heap.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h b/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
index 46eda58..31ba76a 100644
--- a/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
+++ b/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
@@ -46,6 +46,11 @@ class SortMergeReaderWithLoserTree : public SortMergeReader {
         const std::shared_ptr<FieldsComparator>& user_defined_seq_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper);
 
+    ~SortMergeReaderWithLoserTree() override {
+        // the merge function may still hold rows, which must not outlive the readers
+        merge_function_wrapper_->Reset();
+    }
+
     std::shared_ptr<Metrics> GetReaderMetrics() const override {
         return loser_tree_->GetReaderMetrics();
     }
diff --git a/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h b/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
index be13c42..e919e65 100644
--- a/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
+++ b/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
@@ -48,6 +48,11 @@ class SortMergeReaderWithMinHeap : public SortMergeReader {
         const std::shared_ptr<FieldsComparator>& user_defined_seq_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper);
 
+    ~SortMergeReaderWithMinHeap() override {
+        // the merge function may still hold rows, which must not outlive the readers
+        merge_function_wrapper_->Reset();
+    }
+
     class Iterator : public SortMergeReader::Iterator {
      public:
         explicit Iterator(SortMergeReaderWithMinHeap* reader) : reader_(reader) {}
-- 
2.43.0


From a40aaa2a4fb4857d2eaf5ef8cf30916c04eecacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:20 +0000
Subject: [PATCH 41/54] fix: report a recreated table without snapshots from a
 streaming scan instead of throwing

---
 src/paimon/core/table/source/data_table_stream_scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/data_table_stream_scan.cpp b/src/paimon/core/table/source/data_table_stream_scan.cpp
index 3d893f3..cc96bb9 100644
--- a/src/paimon/core/table/source/data_table_stream_scan.cpp
+++ b/src/paimon/core/table/source/data_table_stream_scan.cpp
@@ -106,7 +106,7 @@ Result<std::optional<Snapshot>> DataTableStreamScan::GetNextSnapshot(
             return Status::Invalid(fmt::format(
                 "The next expected snapshot is too big! Most possible cause might be the table had "
                 "been recreated. The next snapshot id is {}, while the latest snapshot id is {}",
-                next_snapshot_id, latest.value()));
+                next_snapshot_id, latest ? std::to_string(latest.value()) : "none"));
         }
         return std::optional<Snapshot>();
     }
-- 
2.43.0


From 41bda9a23aba1f6df7853e5c835542f4aab1e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:56 +0000
Subject: [PATCH 42/54] fix: guard the schema cache of SchemaManager against
 concurrent manifest reads

A filtered scan reads manifests on several threads. Each of them looks up
the schemas of older files in the cache, which was an unguarded std::map.
---
 src/paimon/core/schema/schema_manager.cpp | 8 ++++----
 src/paimon/core/schema/schema_manager.h   | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 94ed36a..8a8b15b 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -66,16 +66,16 @@ Result<std::optional<std::shared_ptr<TableSchema>>> SchemaManager::Latest() cons
 }
 
 Result<std::shared_ptr<TableSchema>> SchemaManager::ReadSchema(int64_t schema_id) const {
-    auto iter = schema_cache_.find(schema_id);
-    if (iter != schema_cache_.end()) {
-        return iter->second;
+    auto cached_schema = schema_cache_.Find(schema_id);
+    if (cached_schema != std::nullopt) {
+        return cached_schema.value();
     }
     auto path = ToSchemaPath(schema_id);
     std::string content;
     PAIMON_RETURN_NOT_OK(file_system_->ReadFile(path, &content));
     PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<TableSchema> schema,
                            TableSchema::CreateFromJson(content));
-    schema_cache_[schema_id] = schema;
+    schema_cache_.Insert(schema_id, schema);
     return schema;
 }
 
diff --git a/src/paimon/core/schema/schema_manager.h b/src/paimon/core/schema/schema_manager.h
index c70bc45..dfc4544 100644
--- a/src/paimon/core/schema/schema_manager.h
+++ b/src/paimon/core/schema/schema_manager.h
@@ -23,6 +23,7 @@
 #include <string>
 #include <vector>
 
+#include "paimon/common/utils/concurrent_hash_map.h"
 #include "paimon/core/schema/table_schema.h"
 #include "paimon/fs/file_system.h"
 #include "paimon/result.h"
@@ -66,7 +67,7 @@ class SchemaManager {
     std::shared_ptr<FileSystem> file_system_;
     std::string table_root_;
     const std::string branch_;
-    mutable std::map<int64_t, std::shared_ptr<TableSchema>> schema_cache_;
+    mutable ConcurrentHashMap<int64_t, std::shared_ptr<TableSchema>> schema_cache_;
 };
 
 }  // namespace paimon
-- 
2.43.0


From ecd8f79e0c4ecd77d215221194943c4912e99382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:03 +0000
Subject: [PATCH 43/54] fix: read dates through projected rows and arrays with
 GetDate of the wrapped row

---
 src/paimon/common/utils/projected_array.h | 3 ++-
 src/paimon/common/utils/projected_row.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/utils/projected_array.h b/src/paimon/common/utils/projected_array.h
index dd9377a..778ec5d 100644
--- a/src/paimon/common/utils/projected_array.h
+++ b/src/paimon/common/utils/projected_array.h
@@ -79,7 +79,8 @@ class ProjectedArray : public InternalArray {
     }
 
     int32_t GetDate(int32_t pos) const override {
-        return GetInt(pos);
+        assert(static_cast<size_t>(pos) < mapping_.size());
+        return array_->GetDate(mapping_[pos]);
     }
 
     int64_t GetLong(int32_t pos) const override {
diff --git a/src/paimon/common/utils/projected_row.h b/src/paimon/common/utils/projected_row.h
index 7ab820e..09be0fb 100644
--- a/src/paimon/common/utils/projected_row.h
+++ b/src/paimon/common/utils/projected_row.h
@@ -96,7 +96,8 @@ class ProjectedRow : public InternalRow {
     }
 
     int32_t GetDate(int32_t pos) const override {
-        return GetInt(pos);
+        assert(static_cast<size_t>(pos) < mapping_.size());
+        return row_->GetDate(mapping_[pos]);
     }
 
     int64_t GetLong(int32_t pos) const override {
-- 
2.43.0


From 7a1fd88c79905334ffe5d87d576b1d0aba834b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:10 +0000
Subject: [PATCH 44/54] fix: report a missing file as not existing so that
 listings tolerate files that vanish meanwhile

---
 src/paimon/fs/local/local_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index 610fa88..db3e382 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -133,6 +133,10 @@ Result<std::unique_ptr<LocalFileStatus>> LocalFile::GetFileStatus() const {
     struct stat buf;
     if (stat(path_.c_str(), &buf) < 0) {
         int32_t cur_errno = errno;
+        if (cur_errno == ENOENT) {
+            return Status::NotExist(fmt::format("get file '{}' status failed, ec: {}", path_,
+                                                std::strerror(cur_errno)));
+        }
         return Status::IOError(
             fmt::format("get file '{}' status failed, ec: {}", path_, std::strerror(cur_errno)));
     }
-- 
2.43.0


From ad2c3b237c1fca11f9f9f6fe72ae08a7785bb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:10 +0000
Subject: [PATCH 45/54] fix: return the error when the schema of a new table
 cannot be stored instead of trying forever

---
 src/paimon/core/schema/schema_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 8a8b15b..d967c4c 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -114,6 +114,10 @@ Result<std::unique_ptr<TableSchema>> SchemaManager::CreateTable(
         if (status.ok()) {
             return table_schema;
         }
+        PAIMON_ASSIGN_OR_RAISE(bool schema_exists, SchemaExists(0));
+        if (!schema_exists) {
+            return status;
+        }
     }
     return Status::Invalid("create table failed, should not be here");
 }
-- 
2.43.0


From 966233e6ae1a24f8075c2fdfeb3d465eb78a6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:10 +0000
Subject: [PATCH 46/54] fix: refuse a complex data type whose type is not a
 string

---
 src/paimon/common/types/data_type_json_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/types/data_type_json_parser.cpp b/src/paimon/common/types/data_type_json_parser.cpp
index 06d9dae..fc67b8d 100644
--- a/src/paimon/common/types/data_type_json_parser.cpp
+++ b/src/paimon/common/types/data_type_json_parser.cpp
@@ -614,6 +614,9 @@ Result<std::shared_ptr<arrow::Field>> DataTypeJsonParser::ParseComplexTypeField(
     if (!type_json_value.HasMember("type")) {
         return Status::Invalid("complex data type must have type");
     }
+    if (!type_json_value["type"].IsString()) {
+        return Status::Invalid("type of complex data type must be a string");
+    }
 
     std::string type_str = type_json_value["type"].GetString();
     bool nullable = true;
-- 
2.43.0


From dc835256ebdeef51867a4f4c31b7263baa454923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:11 +0000
Subject: [PATCH 47/54] fix: keep the comment of a table schema read from JSON

---
 src/paimon/core/schema/table_schema.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/schema/table_schema.cpp b/src/paimon/core/schema/table_schema.cpp
index 984215d..b5cfe32 100644
--- a/src/paimon/core/schema/table_schema.cpp
+++ b/src/paimon/core/schema/table_schema.cpp
@@ -210,9 +210,13 @@ Result<std::vector<DataField>> TableSchema::GetFields(
 
 Result<std::unique_ptr<TableSchema>> TableSchema::CreateFromJson(const std::string& json_str) {
     PAIMON_ASSIGN_OR_RAISE(TableSchema table_schema, TableSchema::FromJsonString(json_str));
-    return InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
-                      table_schema.partition_keys_, table_schema.primary_keys_,
-                      table_schema.options_, table_schema.time_millis_);
+    PAIMON_ASSIGN_OR_RAISE(
+        std::unique_ptr<TableSchema> result,
+        InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
+                   table_schema.partition_keys_, table_schema.primary_keys_,
+                   table_schema.options_, table_schema.time_millis_));
+    result->comment_ = table_schema.comment_;
+    return result;
 }
 
 Result<std::unique_ptr<TableSchema>> TableSchema::InitSchema(
-- 
2.43.0


From 8f4be92d981bb9d8153bb3db1a81a4a4d453fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:44 +0000
Subject: [PATCH 48/54] fix: read columns that no file of a row id range holds
 as nulls

---
 .../core/operation/data_evolution_split_read.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/paimon/core/operation/data_evolution_split_read.cpp b/src/paimon/core/operation/data_evolution_split_read.cpp
index 7a55ec4..fc8d65d 100644
--- a/src/paimon/core/operation/data_evolution_split_read.cpp
+++ b/src/paimon/core/operation/data_evolution_split_read.cpp
@@ -16,6 +16,7 @@
 
 #include "paimon/core/operation/data_evolution_split_read.h"
 
+#include <algorithm>
 #include <map>
 #include <utility>
 
@@ -348,6 +349,21 @@ Result<std::unique_ptr<DataEvolutionFileReader>> DataEvolutionSplitRead::CreateU
             }
         }
     }
+    if (std::all_of(file_batch_readers.begin(), file_batch_readers.end(),
+                    [](const std::unique_ptr<BatchReader>& reader) { return !reader; })) {
+        // no file has any of the read fields, the rows of the first one are completed with nulls
+        PAIMON_ASSIGN_OR_RAISE(
+            std::vector<std::unique_ptr<BatchReader>> file_readers,
+            CreateRawFileReaders(partition, fields_files[0]->Files(), raw_read_schema_,
+                                 /*predicate=*/nullptr, /*deletion_file_map=*/{}, row_ranges,
+                                 data_file_path_factory));
+        file_batch_readers[0] =
+            std::make_unique<ConcatBatchReader>(std::move(file_readers), pool_);
+        for (int32_t i = 0; i < static_cast<int32_t>(all_read_fields.size()); i++) {
+            reader_offsets[i] = 0;
+            field_offsets[i] = i;
+        }
+    }
     // TODO(xinyu.lxy): check nullable when reader_offsets[read_field_idx] = -1
     return DataEvolutionFileReader::Create(std::move(file_batch_readers), raw_read_schema_,
                                            options_.GetReadBatchSize(), reader_offsets,
-- 
2.43.0


From bb1ce4f6109b43342efded77ca50732241e2ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:09 +0000
Subject: [PATCH 49/54] fix: complete index scores before rows are filtered by
 the predicate

---
 .../operation/data_evolution_split_read.cpp   | 22 +++++++++----------
 .../operation/data_evolution_split_read.h     |  5 +++--
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/paimon/core/operation/data_evolution_split_read.cpp b/src/paimon/core/operation/data_evolution_split_read.cpp
index fc8d65d..eb4ca5c 100644
--- a/src/paimon/core/operation/data_evolution_split_read.cpp
+++ b/src/paimon/core/operation/data_evolution_split_read.cpp
@@ -118,27 +118,21 @@ Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::CreateReader(
     const std::shared_ptr<Split>& split) {
     if (auto indexed_split = std::dynamic_pointer_cast<IndexedSplitImpl>(split)) {
         PAIMON_RETURN_NOT_OK(indexed_split->Validate());
-        PAIMON_ASSIGN_OR_RAISE(
-            std::unique_ptr<BatchReader> batch_reader,
-            InnerCreateReader(indexed_split->GetDataSplit(), indexed_split->RowRanges()));
-        if (HasIndexScoreField(raw_read_schema_)) {
-            return std::make_unique<CompleteIndexScoreBatchReader>(std::move(batch_reader),
-                                                                   indexed_split->Scores(), pool_);
-        }
-        return batch_reader;
+        return InnerCreateReader(indexed_split->GetDataSplit(), indexed_split->RowRanges(),
+                                 indexed_split->Scores());
     } else if (auto data_split = std::dynamic_pointer_cast<DataSplit>(split)) {
         if (HasIndexScoreField(raw_read_schema_)) {
             return Status::Invalid(
                 "Invalid read schema, read _INDEX_SCORE while split cannot cast to IndexedSplit");
         }
-        return InnerCreateReader(data_split, /*row_ranges=*/std::nullopt);
+        return InnerCreateReader(data_split, /*row_ranges=*/std::nullopt, /*scores=*/{});
     }
     return Status::Invalid("Invalid Split, cannot cast to IndexedSplit or DataSplit");
 }
 
 Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::InnerCreateReader(
     const std::shared_ptr<DataSplit>& data_split,
-    const std::optional<std::vector<Range>>& row_ranges) const {
+    const std::optional<std::vector<Range>>& row_ranges, const std::vector<float>& scores) const {
     auto split_impl = dynamic_cast<DataSplitImpl*>(data_split.get());
     if (split_impl == nullptr) {
         return Status::Invalid("unexpected error, split cast to impl failed");
@@ -169,7 +163,13 @@ Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::InnerCreateReader(
             sub_readers.push_back(std::move(evolution_reader));
         }
     }
-    auto concat_batch_reader = std::make_unique<ConcatBatchReader>(std::move(sub_readers), pool_);
+    std::unique_ptr<BatchReader> concat_batch_reader =
+        std::make_unique<ConcatBatchReader>(std::move(sub_readers), pool_);
+    if (HasIndexScoreField(raw_read_schema_)) {
+        // scores belong to the rows of the row ranges, complete them before rows are filtered
+        concat_batch_reader = std::make_unique<CompleteIndexScoreBatchReader>(
+            std::move(concat_batch_reader), scores, pool_);
+    }
     PAIMON_ASSIGN_OR_RAISE(
         std::unique_ptr<BatchReader> batch_reader,
         ApplyPredicateFilterIfNeeded(std::move(concat_batch_reader), context_->GetPredicate()));
diff --git a/src/paimon/core/operation/data_evolution_split_read.h b/src/paimon/core/operation/data_evolution_split_read.h
index 5b8c700..236c89d 100644
--- a/src/paimon/core/operation/data_evolution_split_read.h
+++ b/src/paimon/core/operation/data_evolution_split_read.h
@@ -51,7 +51,7 @@ struct DeletionFile;
 /// otherwise, it must be present in the read path.
 ///
 /// Readers Overview: (ConcatBatchReader across
-/// splits)->(CompleteIndexScoreBatchReader)->CompleteRowKindBatchReader->(PredicateBatchReader)
+/// splits)->CompleteRowKindBatchReader->(PredicateBatchReader)->(CompleteIndexScoreBatchReader)
 /// ->ConcatBatchReader across files->DataEvolutionFileReader->(ConcatBatchReader across blob files)
 /// ->FieldMappingReader->(CompleteRowTrackingFieldsBatchReader)
 /// ->(DelegatingPrefetchReader)->(PrefetchFileBatchReader)->FormatReader
@@ -130,7 +130,8 @@ class DataEvolutionSplitRead : public AbstractSplitRead {
  private:
     Result<std::unique_ptr<BatchReader>> InnerCreateReader(
         const std::shared_ptr<DataSplit>& data_split,
-        const std::optional<std::vector<Range>>& row_ranges) const;
+        const std::optional<std::vector<Range>>& row_ranges,
+        const std::vector<float>& scores) const;
 
     static Result<std::vector<std::shared_ptr<DataEvolutionSplitRead::FieldBunch>>>
     SplitFieldBunches(const std::vector<std::shared_ptr<DataFileMeta>>& need_merge_files,
-- 
2.43.0


From 3ef75e8737f2632a76f82d3df5a988ddb2ef901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:33 +0000
Subject: [PATCH 50/54] fix: assign row ids anew when a commit is tried again

---
 src/paimon/core/manifest/manifest_entry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/core/manifest/manifest_entry.h b/src/paimon/core/manifest/manifest_entry.h
index b645904..376ed70 100644
--- a/src/paimon/core/manifest/manifest_entry.h
+++ b/src/paimon/core/manifest/manifest_entry.h
@@ -144,6 +144,8 @@ class ManifestEntry : public FileEntry {
     }
 
     void AssignFirstRowId(int64_t first_row_id) {
+        // the file meta is shared with the commit message, which may be committed again
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignFirstRowId(first_row_id);
     }
 
-- 
2.43.0


From 65373ec83ba86a8f843c0e67571019871fdac173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:20 +0000
Subject: [PATCH 51/54] fix: allocate the blob magic number bytes from the
 writer's own pool

The bytes were a function static taken from the first writer's memory pool.
They kept that pool's memory in use and were released after the pool was gone.
---
 src/paimon/format/blob/blob_format_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/format/blob/blob_format_writer.cpp b/src/paimon/format/blob/blob_format_writer.cpp
index 1493a06..99d3490 100644
--- a/src/paimon/format/blob/blob_format_writer.cpp
+++ b/src/paimon/format/blob/blob_format_writer.cpp
@@ -123,9 +123,9 @@ Status BlobFormatWriter::WriteBlob(std::string_view blob_data) {
     PAIMON_ASSIGN_OR_RAISE(int64_t previous_pos, out_->GetPos());
 
     // write magic number
-    static PAIMON_UNIQUE_PTR<Bytes> MAGIC_NUMBER_BYTES =
+    PAIMON_UNIQUE_PTR<Bytes> magic_number_bytes =
         IntegerToLittleEndian<int32_t>(MAGIC_NUMBER, pool_);
-    PAIMON_RETURN_NOT_OK(WriteWithCrc32(MAGIC_NUMBER_BYTES->data(), MAGIC_NUMBER_BYTES->size()));
+    PAIMON_RETURN_NOT_OK(WriteWithCrc32(magic_number_bytes->data(), magic_number_bytes->size()));
 
     // write blob content
     std::unique_ptr<InputStream> in;
-- 
2.43.0


From c41543e25911b83accadf9986163b15df551fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:31 +0000
Subject: [PATCH 52/54] fix: reject blob files whose footer or index does not
 fit the file

A file shorter than the footer, an index length outside the file or a blob
length outside the data made the reader allocate huge or negative sizes and
write past the end of its buffer.
---
 .../format/blob/blob_file_batch_reader.cpp     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/paimon/format/blob/blob_file_batch_reader.cpp b/src/paimon/format/blob/blob_file_batch_reader.cpp
index b1e8b67..0c2dd07 100644
--- a/src/paimon/format/blob/blob_file_batch_reader.cpp
+++ b/src/paimon/format/blob/blob_file_batch_reader.cpp
@@ -50,6 +50,11 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
     }
 
     PAIMON_ASSIGN_OR_RAISE(uint64_t file_size, input_stream->Length());
+    if (file_size < kBlobFileHeaderLength) {
+        return Status::Invalid(fmt::format(
+            "create blob format reader failed. file size {} is less than header length {}",
+            file_size, kBlobFileHeaderLength));
+    }
     PAIMON_RETURN_NOT_OK(input_stream->Seek(file_size - kBlobFileHeaderLength, FS_SEEK_SET));
     int8_t header[kBlobFileHeaderLength];
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_size, input_stream->Read(reinterpret_cast<char*>(header),
@@ -65,6 +70,12 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
             "create blob format reader failed. unsupported blob file version: {}", version));
     }
     int32_t index_length = GetIndexLength(header, 0);
+    if (index_length < 0 ||
+        static_cast<uint64_t>(index_length) > file_size - kBlobFileHeaderLength) {
+        return Status::Invalid(
+            fmt::format("create blob format reader failed. invalid index length {} in a file of {}",
+                        index_length, file_size));
+    }
     PAIMON_RETURN_NOT_OK(
         input_stream->Seek(file_size - kBlobFileHeaderLength - index_length, FS_SEEK_SET));
     std::vector<char> index_bytes(index_length, '\0');
@@ -80,7 +91,14 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
     std::vector<int64_t> blob_offsets;
     blob_offsets.reserve(blob_lengths.size());
     int64_t offset = 0;
+    const int64_t index_offset =
+        static_cast<int64_t>(file_size - kBlobFileHeaderLength - index_length);
     for (const auto& blob_length : blob_lengths) {
+        if (blob_length < kBlobTotalMetaLength || blob_length > index_offset - offset) {
+            return Status::Invalid(fmt::format(
+                "create blob format reader failed. invalid blob length {} at offset {}",
+                blob_length, offset));
+        }
         blob_offsets.push_back(offset);
         offset += blob_length;
     }
-- 
2.43.0


From 571863380157e9de35be4303b13bc3acb25b3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:48 +0000
Subject: [PATCH 53/54] fix: do not clean orphan files when tags or branches
 cannot be listed

A failing listing was taken for a table without tags and branches, so files
that only a tag or branch refers to were deleted.
---
 .../core/operation/orphan_files_cleaner_impl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 1ea9865..22e87d8 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -83,10 +83,22 @@ bool OrphanFilesCleanerImpl::SupportToClean(const std::string& file_name) {
 }
 
 Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "tag")).empty()) {
+    // a failure to look for tags and branches must not be taken for their absence
+    auto has_files = [this](const std::string& path) -> Result<bool> {
+        PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
+        if (!is_exist) {
+            return false;
+        }
+        std::vector<std::unique_ptr<BasicFileStatus>> file_statuses;
+        PAIMON_RETURN_NOT_OK(fs_->ListDir(path, &file_statuses));
+        return !file_statuses.empty();
+    };
+    PAIMON_ASSIGN_OR_RAISE(bool has_tag, has_files(PathUtil::JoinPath(root_path_, "tag")));
+    if (has_tag) {
         return Status::NotImplemented("OrphanFilesCleaner do not support cleaning table with tag");
     }
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "branch")).empty()) {
+    PAIMON_ASSIGN_OR_RAISE(bool has_branch, has_files(PathUtil::JoinPath(root_path_, "branch")));
+    if (has_branch) {
         return Status::NotImplemented(
             "OrphanFilesCleaner do not support cleaning table with branch");
     }
-- 
2.43.0


From b7f5d581794b8610908723e4848cfc6837078aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:06 +0000
Subject: [PATCH 54/54] fix: close local files whose stream goes away without a
 Close

Blob readers, the blob statistics and blobs opened from descriptors drop
their streams without closing them. The local streams kept the file open
for the life of the process, so a process reading enough blob files ran
out of file descriptors.
---
 src/paimon/fs/local/local_file.cpp      | 7 +++++++
 src/paimon/fs/local/local_file.h        | 2 ++
 src/paimon/fs/local/local_file_system.h | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index db3e382..d2d0162 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -318,6 +318,13 @@ Status LocalFile::Close() {
     return Status::OK();
 }
 
+void LocalFile::Release() {
+    if (file_) {
+        fclose(file_);
+        file_ = nullptr;
+    }
+}
+
 Status LocalFile::Seek(int64_t offset, int32_t seek_origin) {
     if (file_) {
         CHECK_HOOK();
diff --git a/src/paimon/fs/local/local_file.h b/src/paimon/fs/local/local_file.h
index cb4b353..5f696b0 100644
--- a/src/paimon/fs/local/local_file.h
+++ b/src/paimon/fs/local/local_file.h
@@ -60,6 +60,8 @@ class LocalFile {
     Result<int32_t> Write(const char* buffer, uint32_t length);
     Status Flush();
     Status Close();
+    /// Give up the file if it is still open, for an owner that goes away without `Close()`.
+    void Release();
     Status Seek(int64_t offset, int32_t seek_origin);
     Result<int64_t> Tell() const;
 
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 9ab4bb1..13f41d7 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -69,6 +69,9 @@ class LocalFileSystem : public FileSystem {
 class LocalInputStream : public InputStream {
  public:
     static Result<std::unique_ptr<LocalInputStream>> Create(LocalFile& file);
+    ~LocalInputStream() override {
+        file_.Release();
+    }
 
     Status Seek(int64_t offset, SeekOrigin origin) override;
     Result<int64_t> GetPos() const override;
@@ -92,6 +95,9 @@ class LocalInputStream : public InputStream {
 class LocalOutputStream : public OutputStream {
  public:
     static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file);
+    ~LocalOutputStream() override {
+        file_.Release();
+    }
 
     Result<int64_t> GetPos() const override;
     Result<int32_t> Write(const char* buffer, uint32_t size) override;
-- 
2.43.0

