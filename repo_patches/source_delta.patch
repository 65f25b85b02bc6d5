From 62790f963507cbc91dd3a2e9603cd49efd6fff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 01/28] fix: wake pool workers when ParallelExecutor is
 destroyed

The start latch waits for next_task < num_tasks; the destructor set both to 1,
so workers never saw the request to terminate and the destructor never returned.
---
 c/experimental/groups.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..de41d72 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,7 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From f900e0d14dfb47536fa4d057595b7217e5441351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 02/28] fix: EncodeBrunsli reports a short write of the sink

The documented contract is that any sink result other than the size offered is
an error; only zero was treated as one.
---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From 1fb02d00dd90bf0996a7f775741ccd7848fbcb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 03/28] fix: reject header varint tags that are encoded as
 sections

The failure was recorded but parsing went on.
---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..03f0846 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From 3bb7173a9503a64644afef788d14188d6a6ae25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 04/28] fix: streaming decoder does not keep references to
 consumed input

In fallback mode the payload was referenced in place, and read again by later
Decode calls when the output did not fit at once.
---
 c/dec/brunsli_decode.cc | 4 +++-
 c/dec/state.h           | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 03f0846..ee57cc4 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2013,7 +2013,7 @@ static Stage DecodeOriginalJpg(State* state, JPEGData* jpg) {
         }
         // Check if it is possible to avoid copy.
         const uint8_t* src = state->data + state->pos;
-        if (fs.storage.empty()) {
+        if (fs.storage.empty() && !state->is_input_transient) {
           if (chunk_size >= jpg->original_jpg_size) {
             jpg->original_jpg = src;
             SkipBytes(state, jpg->original_jpg_size);
@@ -2502,6 +2502,8 @@ size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
 BrunsliDecoder::BrunsliDecoder() {
   jpg_.reset(new JPEGData);
   state_.reset(new State);
+  // Consumed input is not required to outlive the Decode call.
+  state_->is_input_transient = true;
 }
 
 BrunsliDecoder::~BrunsliDecoder() {}
diff --git a/c/dec/state.h b/c/dec/state.h
index bd71bda..f08b681 100644
--- a/c/dec/state.h
+++ b/c/dec/state.h
@@ -73,6 +73,8 @@ class State {
   // NB: this |tags_met| is not updated by decoder.
   uint32_t tags_met = 0;
   uint32_t skip_tags = 0;
+  // Input is valid only until ProcessJpeg returns; do not keep references.
+  bool is_input_transient = false;
 
   // Public input knobs.
   const uint8_t* data = nullptr;
-- 
2.43.0


From efec9074608218783a1f27c8fa1e405660cff3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 05/28] fix: do not share decoding status between group workers

Workers wrote one captured variable, so the failure of one group could be
overwritten by the success of another before it was checked.
---
 c/experimental/groups.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index de41d72..e799585 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -483,7 +483,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
+    BrunsliStatus status = ProcessJpeg(&dc_state, jpg);
     if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
@@ -526,7 +526,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
+    BrunsliStatus status = ProcessJpeg(&ac_state, jpg);
     if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
-- 
2.43.0


From 13a671807c1d62e2c590f5f17ab52b495e5bdbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 06/28] fix: encoder returns false when the output buffer is
 too small

BrunsliEncodeJpeg is documented to return false on buffer overflow, but the
section writers stored past the end of the buffer (and then aborted, at best).
---
 c/enc/brunsli_encode.cc | 34 +++++++++++++++++++++++++++++-----
 c/enc/write_bits.cc     | 20 ++++++++++++++------
 c/enc/write_bits.h      | 22 +++++++++++++++-------
 3 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..f6891c2 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -705,6 +705,14 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   const uint32_t state = ans.GetState();
+  size_t num_words = 2;
+  for (int i = 0; i < pos_; ++i) {
+    if (code_words_[i].nbits) ++num_words;
+  }
+  if (num_words > storage->length / 2) {
+    storage->pos += num_words * 16;  // Overflow.
+    return;
+  }
   uint16_t* out = reinterpret_cast<uint16_t*>(storage->data);
   const uint16_t* out_start = out;
   // Mixed-endian for historical reasons.
@@ -823,12 +831,16 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  // Marker and at most 10 bytes of base-128 number per value.
+  uint8_t buffer[4 * 11];
   size_t pos = 0;
-  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
-  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
-  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
-  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, data, &pos);
+  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, buffer, &pos);
+  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, buffer, &pos);
+  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, buffer, &pos);
+  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, buffer, &pos);
 
+  if (pos > *len) return false;
+  memcpy(data, buffer, pos);
   *len = pos;
   return true;
 }
@@ -872,13 +884,17 @@ bool EncodeMetaData(const JPEGData& jpg, State* state, uint8_t* data,
     *len = 0;
     return true;
   } else if (metadata.size() == 1) {
+    if (*len < 1) return false;
     *len = 1;
     data[0] = metadata[0];
     return true;
   }
 
   // Write base-128 encoding of the original metadata size.
-  size_t pos = EncodeBase128(metadata.size(), data);
+  uint8_t size_buffer[10];
+  size_t pos = EncodeBase128(metadata.size(), size_buffer);
+  if (pos > *len) return false;
+  memcpy(data, size_buffer, pos);
 
   // Write the compressed metadata directly to the output.
   size_t compressed_size = *len - pos;
@@ -905,6 +921,7 @@ bool EncodeJPEGInternals(const JPEGData& jpg, State* state, uint8_t* data,
     return false;
   }
 
+  if (storage.IsOverflown()) return false;
   *len = storage.GetBytesUsed();
   return true;
 }
@@ -918,6 +935,7 @@ bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
     return false;
   }
 
+  if (storage.IsOverflown()) return false;
   *len = storage.GetBytesUsed();
   return true;
 }
@@ -934,6 +952,7 @@ bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
 
   state->entropy_codes->BuildAndStoreEntropyCodes(&storage);
 
+  if (storage.IsOverflown()) return false;
   *len = storage.GetBytesUsed();
   return true;
 }
@@ -945,6 +964,7 @@ bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
 
   state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage);
 
+  if (storage.IsOverflown()) return false;
   *len = storage.GetBytesUsed();
   return true;
 }
@@ -956,6 +976,7 @@ bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
 
   state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage);
 
+  if (storage.IsOverflown()) return false;
   *len = storage.GetBytesUsed();
   return true;
 }
@@ -966,6 +987,9 @@ typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
 bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    EncodeSectionDataFn write_section, size_t section_size_bytes,
                    size_t len, uint8_t* data, size_t* pos) {
+  // Marker and section size.
+  if (*pos > len || 1 + section_size_bytes > len - *pos) return false;
+
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
   const uint8_t marker = SectionMarker(tag);
diff --git a/c/enc/write_bits.cc b/c/enc/write_bits.cc
index 0a2c730..85189e2 100644
--- a/c/enc/write_bits.cc
+++ b/c/enc/write_bits.cc
@@ -11,19 +11,27 @@ namespace brunsli {
 
 Storage::Storage(uint8_t* data, size_t length)
     : data(data), length(length), pos(0) {
-  BRUNSLI_CHECK(length > 0);
-  data[0] = 0;
+  if (length > 0) data[0] = 0;
 }
 
 void Storage::AppendBytes(const uint8_t* src, size_t len) {
   BRUNSLI_DCHECK((pos & 7) == 0);
-  BRUNSLI_DCHECK(GetBytesUsed() + len <= length);
-  memcpy(data + (pos >> 3), src, len);
+  size_t used = GetBytesUsed();
+  if (used <= length && len <= length - used) {
+    memcpy(data + used, src, len);
+  }
   pos += 8 * len;
 }
 
-Storage::~Storage() {
-  BRUNSLI_CHECK(GetBytesUsed() <= length);
+void Storage::WriteBitsNearEnd(size_t n_bits, uint64_t bits) {
+  for (size_t i = 0; i < n_bits; ++i) {
+    size_t ix = pos >> 3;
+    if (ix < length) {
+      if ((pos & 7) == 0) data[ix] = 0;
+      data[ix] |= static_cast<uint8_t>(((bits >> i) & 1) << (pos & 7));
+    }
+    ++pos;
+  }
 }
 
 }  // namespace brunsli
diff --git a/c/enc/write_bits.h b/c/enc/write_bits.h
index 27ee199..56e244c 100644
--- a/c/enc/write_bits.h
+++ b/c/enc/write_bits.h
@@ -18,17 +18,19 @@ class Storage {
  public:
   Storage(uint8_t* data, size_t length);
 
-  /**
-   * Crashes in case of buffer overflow.
-   */
-  ~Storage();
-
   size_t GetBytesUsed() const {
     return (pos + 7) >> 3;
   }
 
+  // Returns true if more has been written than the buffer can hold. What does
+  // not fit is dropped; |pos| is still advanced.
+  bool IsOverflown() const { return GetBytesUsed() > length; }
+
   void AppendBytes(const uint8_t* src, size_t len);
 
+  // WriteBits for the tail of the buffer.
+  void WriteBitsNearEnd(size_t n_bits, uint64_t bits);
+
   uint8_t* const data;
   // Size of buffer in bytes.
   const size_t length;
@@ -58,7 +60,10 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   BRUNSLI_DCHECK((bits >> n_bits) == 0);
   BRUNSLI_DCHECK(n_bits <= 56);
 #if defined(BRUNSLI_LITTLE_ENDIAN)
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) + 7 < storage->length);
+  if (BRUNSLI_PREDICT_FALSE((storage->pos >> 3) + 8 > storage->length)) {
+    storage->WriteBitsNearEnd(n_bits, bits);
+    return;
+  }
   /* This branch of the code can write up to 56 bits at a time,
      7 bits are lost by being perhaps already in *p and at least
      1 bit is needed to initialize the bit-stream ahead (i.e. if 7
@@ -71,7 +76,10 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   storage->pos += n_bits;
 #else
   /* implicit & 0xFF is assumed for uint8_t arithmetics */
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) < storage->length);
+  if (((storage->pos + n_bits) >> 3) >= storage->length) {
+    storage->WriteBitsNearEnd(n_bits, bits);
+    return;
+  }
   uint8_t* BRUNSLI_RESTRICT array_pos = storage->data + (storage->pos >> 3);
   const size_t bits_reserved_in_first_byte = (storage->pos & 7);
   bits <<= bits_reserved_in_first_byte;
-- 
2.43.0


From e7614acfabae3bed297b78cf9fb6552e62e9bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 07/28] fix: raise the bound on encoded bytes per block

Large images whose blocks are dense and of high amplitude need more than 84
bytes per block, so the buffer recommended to callers was too small.
---
 c/enc/brunsli_encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index f6891c2..9e8634d 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -80,8 +80,8 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // Dense blocks with large coefficients take about 90 bytes.
+  constexpr size_t kBytesPerBlock = 112;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From e9459fdb6d6a506ebc8aeb001ad69c9a2eef6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 08/28] fix: size group buffers by the contents of the groups

Fixed sizes were too small for dense images, long histograms and group
dimensions other than 32 / 128; encoding of valid images failed.
---
 c/enc/state.h            |  4 ++++
 c/experimental/groups.cc | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/c/enc/state.h b/c/enc/state.h
index ef6dc6c..0579203 100644
--- a/c/enc/state.h
+++ b/c/enc/state.h
@@ -21,6 +21,10 @@
 #include "./write_bits.h"
 
 namespace brunsli {
+
+// Upper bound on the size of JPEG internals section.
+size_t EstimateAuxDataSize(const JPEGData& jpg);
+
 namespace internal {
 namespace enc {
 
diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index e799585..d946cda 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -299,10 +299,8 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   {
     std::vector<uint8_t>& part = output[0];
     state.entropy_codes = entropy_codes.get();
-    size_t part_size = 20480;
-    for (size_t i = 0; i < jpg.inter_marker_data.size(); ++i) {
-      part_size += 5 + jpg.inter_marker_data[i].size();
-    }
+    // Same reserve for header / entropy tables as in regular workflow.
+    size_t part_size = (1 << 20) + EstimateAuxDataSize(jpg);
     for (const std::vector<uint8_t>& chunk : jpg.app_data) {
       part_size += chunk.size();
     }
@@ -310,7 +308,6 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
       part_size += chunk.size();
     }
     part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -320,6 +317,14 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     part.resize(part_size);
   }
 
+  const auto get_part_size = [](const State& s, size_t bytes_per_block) {
+    size_t part_size = 1024;
+    for (const ComponentMeta& m : s.meta) {
+      part_size += bytes_per_block * m.width_in_blocks * m.height_in_blocks;
+    }
+    return part_size;
+  };
+
   const auto serialize = [&](size_t idx) {
     if (failed.load()) return;
     std::vector<uint8_t>& part = output[idx];
@@ -327,8 +332,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx--;
     if (idx < dc_state.size()) {
       State& s = dc_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      size_t part_size = get_part_size(s, 8);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -343,8 +347,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx -= dc_state.size();
     if (idx < ac_state.size()) {
       State& s = ac_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      size_t part_size = get_part_size(s, 112);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From beac74c75ced62c21681d9e6385c2bf0583705aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 09/28] fix: ParallelExecutor passes task exceptions to the
 caller

An exception (e.g. std::bad_alloc) ended the worker with busy_count still
raised, and execute() never returned.
---
 c/experimental/groups.cc | 12 +++++++++++-
 c/experimental/groups.h  |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index d946cda..34047bb 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -66,7 +66,12 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
       while (true) {
         size_t my_task = next_task++;
         if (my_task >= num_tasks) break;
-        (*runnable)(my_task);
+        try {
+          (*runnable)(my_task);
+        } catch (...) {
+          std::lock_guard<std::mutex> lock(this->lock);
+          if (!error) error = std::current_exception();
+        }
       }
       {
         std::lock_guard<std::mutex> lock(this->lock);
@@ -106,6 +111,11 @@ void ParallelExecutor::execute(const Runnable& runnable, size_t num_tasks) {
   finish_latch.wait(lock, [this, num_tasks] {
     return (next_task.load() >= num_tasks) && (busy_count.load() == 0);
   });
+  if (error) {
+    std::exception_ptr task_error = error;
+    error = nullptr;
+    std::rethrow_exception(task_error);
+  }
 }
 
 bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
diff --git a/c/experimental/groups.h b/c/experimental/groups.h
index dad37c8..0f0bd47 100644
--- a/c/experimental/groups.h
+++ b/c/experimental/groups.h
@@ -10,6 +10,8 @@
 #define BRUNSLI_EXPERIMENTAL_GROUPS_H_
 
 #include <atomic>
+#include <condition_variable>
+#include <exception>
 #include <functional>
 #include <future>  // NOLINT(build/c++11)
 #include <mutex>  // NOLINT(build/c++11)
@@ -42,6 +44,7 @@ class ParallelExecutor {
   std::atomic<size_t> next_task{0};
   std::atomic<size_t> busy_count{0};
   bool terminate = false;
+  std::exception_ptr error;
   std::vector<std::future<void>> futures;
 };
 
-- 
2.43.0


From c1f68cbeec198a1cb63476dfde7ba211ba4c09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 10/28] fix: ParallelExecutor stops its workers if a thread can
 not be started

The constructor threw with workers waiting for tasks, and unwinding blocked on
their futures forever.
---
 c/experimental/groups.cc | 14 +++++++++++---
 c/experimental/groups.h  |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 34047bb..e2b3a0b 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -81,12 +81,20 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
     }
   };
   futures.reserve(num_threads);
-  for (size_t i = 0; i < num_threads; ++i) {
-    futures.push_back(std::async(std::launch::async, worker));
+  try {
+    for (size_t i = 0; i < num_threads; ++i) {
+      futures.push_back(std::async(std::launch::async, worker));
+    }
+  } catch (...) {
+    this->num_threads = futures.size();
+    shutdown();
+    throw;
   }
 }
 
-ParallelExecutor::~ParallelExecutor() {
+ParallelExecutor::~ParallelExecutor() { shutdown(); }
+
+void ParallelExecutor::shutdown() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
   next_task.store(0);
diff --git a/c/experimental/groups.h b/c/experimental/groups.h
index 0f0bd47..1e5fcd0 100644
--- a/c/experimental/groups.h
+++ b/c/experimental/groups.h
@@ -35,6 +35,7 @@ class ParallelExecutor {
 
  private:
   void execute(const Runnable& runnable, size_t num_tasks);
+  void shutdown();
   size_t num_threads;
   std::mutex lock;
   std::condition_variable start_latch;
-- 
2.43.0


From 9031792a016517f65f537c551094538e0aad99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 11/28] fix: tools report a failure to get the input file size

ftell errors (and, for directories, its meaningless result) were used as size;
the tools died of an uncaught exception.
---
 c/tools/cbrunsli.cc | 8 +++++++-
 c/tools/dbrunsli.cc | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..28a4cbf 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -31,7 +31,13 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  long input_size = ftell(file);  // NOLINT(runtime/int)
+  if (input_size < 0 ||
+      static_cast<unsigned long>(input_size) >  // NOLINT(runtime/int)
+          content->max_size()) {
+    fprintf(stderr, "Failed to get input file size.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..2e5a4ff 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -38,7 +38,13 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  long input_size = ftell(file);  // NOLINT(runtime/int)
+  if (input_size < 0 ||
+      static_cast<unsigned long>(input_size) >  // NOLINT(runtime/int)
+          content->max_size()) {
+    fprintf(stderr, "Failed to get input file size.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
-- 
2.43.0


From fdc7028d0569770cc99b4f616f988963e78ec9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 12/28] fix: wasm decoder releases its buffers the way they
 were allocated

---
 wasm/codec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/codec.cc b/wasm/codec.cc
index 7a3743a..2468a24 100644
--- a/wasm/codec.cc
+++ b/wasm/codec.cc
@@ -102,9 +102,9 @@ void BrunsliDecoderCleanup(uint32_t* instance) {
       reinterpret_cast<brunsli::BrunsliDecoder*>(instance[0]);
   delete decoder;
   uint8_t* in = reinterpret_cast<uint8_t*>(instance[2]);
-  delete[] in;
+  free(in);
   uint8_t* out = reinterpret_cast<uint8_t*>(instance[4]);
-  delete[] out;
+  free(out);
   delete[] instance;
 }
 
-- 
2.43.0


From a83290ef37ee13dfdaefc8642a1cd9caa3e5a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 13/28] fix: streaming decoder emits bypassed content as soon
 as there is room

After parsing a fallback stream Decode() returned NEEDS_MORE_OUTPUT without
having written anything, whatever room the caller offered (and tripped the
debug check that says so).
---
 c/dec/jpeg_data_writer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..3dad8e3 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1022,6 +1022,7 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
           //               file is passed to parser, but it is impossible to
           //               push complete output.
           ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From bc75c6d9753d3da8b790c312e1a101403ebd956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 14/28] fix: reject metadata section that follows DC data

Serialization in streaming mode starts with the DC section and relies on
metadata being ready; decoding in one call accepted such streams.
---
 c/dec/brunsli_decode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index ee57cc4..3ec70d6 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2118,6 +2118,10 @@ static Stage ProcessSection(State* state, JPEGData* jpg) {
 
   switch (s.section.tag) {
     case kBrunsliMetaDataTag: {
+      // Serialization relies on metadata being ready when DC parsing starts.
+      if (HasSection(state, kBrunsliDCDataTag)) {
+        return Fail(state, BRUNSLI_INVALID_BRN);
+      }
       BrunsliStatus status = DecodeMetaDataSection(state, jpg);
       if (status != BRUNSLI_OK) return Fail(state, status);
       break;
-- 
2.43.0


From fcc238eb19a61f13f5f88c236711a3ed7a15946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 15/28] fix: do not start serialization before DC section is
 met

An AC section tag that arrives before the DC section made the serializer
read coefficients that are not allocated yet.
---
 c/dec/jpeg_data_writer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 3dad8e3..be47d5e 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1005,8 +1005,7 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
         bool can_start_serialization = (state->stage == Stage::DONE);
         // Parsing of AC/DC has started; i.e. quant/huffman/metadata is ready
         // to be used.
-        if (HasSection(state, kBrunsliDCDataTag) ||
-            HasSection(state, kBrunsliACDataTag)) {
+        if (HasSection(state, kBrunsliDCDataTag)) {
           can_start_serialization = true;
         }
         if (!can_start_serialization) {
-- 
2.43.0


From 3f1c3e57e8508773503848a770657981b5d0d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 16/28] fix: streaming decoder reports completion only when the
 stream is complete

A JPEG without scans is fully serialized as soon as the DC section is met, so
BrunsliDecoder::Decode reported DONE on truncated input, and left the last
sections unconsumed.
---
 c/dec/brunsli_decode.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 3ec70d6..ec4a292 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2545,9 +2545,9 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
-      return BrunsliDecoder::DONE;
+      // JPEG without scans is serialized before the last sections are parsed.
+      return (parse_status == BRUNSLI_OK) ? BrunsliDecoder::DONE
+                                          : BrunsliDecoder::NEEDS_MORE_INPUT;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
       // If serializer says that data is incomplete, parser should say the same.
-- 
2.43.0


From fe4f577a58051bf69302502185c2c8cb7e25ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 17/28] fix: tools report write errors the disk has recovered
 from

---
 c/tools/cbrunsli.cc | 3 ++-
 c/tools/dbrunsli.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index 28a4cbf..8b10821 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -81,7 +81,8 @@ bool WriteFileInternal(FILE* file, const std::string& content) {
   while (write_pos < content.size()) {
     const size_t bytes_written =
         fwrite(&content[write_pos], 1, content.size() - write_pos, file);
-    if (bytes_written == 0) {
+    // After an error buffered content is lost; proceeding would leave a gap.
+    if (bytes_written == 0 || ferror(file) != 0) {
       fprintf(stderr, "Failed to write output.\n");
       return false;
     }
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 2e5a4ff..295411c 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -88,7 +88,8 @@ bool WriteFileInternal(FILE* file, const std::string& content) {
   while (write_pos < content.size()) {
     const size_t bytes_written =
         fwrite(&content[write_pos], 1, content.size() - write_pos, file);
-    if (bytes_written == 0) {
+    // After an error buffered content is lost; proceeding would leave a gap.
+    if (bytes_written == 0 || ferror(file) != 0) {
       fprintf(stderr, "Failed to write output.\n");
       return false;
     }
-- 
2.43.0


From 5c4e41656c1fb7c303160ec57ac9cc923283bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 18/28] fix: nginx module finds the brunsli type at the end of
 the Accept header

ngx_strcasestrn() takes the length of the needle minus one; with the whole
length it compared the terminating zero byte or the byte that follows too.
---
 contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 9de7018..c4630da 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -295,8 +295,9 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
   u_char *p;
 
+  /* the last argument is the length of the type minus one */
   p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len);
+                      ngx_http_brunsli_mime_type.len - 1);
   if (p == NULL) {
     return NGX_DECLINED;
   }
-- 
2.43.0


From 76a222e4973e449d5e59c0efe362f9de58ea6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 19/28] fix: nginx module looks at every occurrence of the
 brunsli type in Accept

---
 .../src/ngx_http_brunsli_static_module.c      | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index c4630da..c44343b 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -295,22 +295,27 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
   u_char *p;
 
-  /* the last argument is the length of the type minus one */
-  p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len - 1);
-  if (p == NULL) {
-    return NGX_DECLINED;
-  }
+  p = ae->data;
+
+  for (;;) {
+    /* the last argument is the length of the type minus one */
+    p = ngx_strcasestrn(p, (char *)ngx_http_brunsli_mime_type.data,
+                        ngx_http_brunsli_mime_type.len - 1);
+    if (p == NULL) {
+      return NGX_DECLINED;
+    }
 
-  if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
-    p += ngx_http_brunsli_mime_type.len;
+    if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
+      p += ngx_http_brunsli_mime_type.len;
 
-    if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
-      return NGX_OK;
+      if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
+        return NGX_OK;
+      }
+
+    } else {
+      p += ngx_http_brunsli_mime_type.len;
     }
   }
-
-  return NGX_DECLINED;
 }
 
 static void *ngx_http_brunsli_static_create_conf(ngx_conf_t *cf) {
-- 
2.43.0


From 8e428e036c93c6aeec376999e5bf0577b9db5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 20/28] fix: apache module does not dereference NULL for an
 empty element of Accept

---
 contrib/mod_brunsli/mod_brunsli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index c0a2988..8701c4f 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -18,6 +18,7 @@ static int accept_brunsli(char* const accept) {
        token = apr_strtok(NULL, sep, &last)) {
     char* qlast;
     char* const mime_type = apr_strtok(token, qsep, &qlast);
+    if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
     if (strcmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
-- 
2.43.0


From 690c697313512dcd95be9b95aa4d46b1f55bf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 21/28] fix: apache module compares media types
 case-insensitively

---
 contrib/mod_brunsli/mod_brunsli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index 8701c4f..9a7b20a 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -20,7 +20,7 @@ static int accept_brunsli(char* const accept) {
     char* const mime_type = apr_strtok(token, qsep, &qlast);
     if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
-    if (strcmp(mime_type, brunsli_mime_type) == 0) {
+    if (strcasecmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
     }
   }
-- 
2.43.0


From b88e1de0a3417ddb17ced805c57e29064d245d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 22/28] fix: cv2 wrapper passes positional arguments of imread
 through

---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index 9b15f38..e2f4f78 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -63,18 +63,18 @@ def _get_opencv_wrapped_imread(cv2_imread, debug=False):
   if wrapper:
     return wrapper
   # Otherwise, there was not yet a wrapper-function. Create one.
-  def imread(filename, **kwargs):  # Has same name as replaced function.
+  def imread(filename, *args, **kwargs):  # Has same name as replaced function.
     """[Docstring will get replaced]."""
     # For now, this wrapper does nothing - it just wraps the original imread().
     if debug:
       sys.stderr.write(
-          'DDD wrapped OpenCV imread(filename=%r, **kwargs=%r)\n' % (
-              filename, kwargs))
+          'DDD wrapped OpenCV imread(filename=%r, *args=%r, **kwargs=%r)\n' % (
+              filename, args, kwargs))
     if jxl_utils.is_jpegxl_recompressed_jpeg_file(filename):
       return jxl_utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
-          cv2_imread, filename, **kwargs)
+          cv2_imread, filename, *args, **kwargs)
     else:
-      return cv2_imread(filename, **kwargs)
+      return cv2_imread(filename, *args, **kwargs)
   # We even fake the docstring.
   imread.__doc__ = cv2_imread.__doc__
   # Make both the old and the new function point to the wrapper in the global
-- 
2.43.0


From 7942dc7c66b854883a7aeab01fee18d30b5a4a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 23/28] fix: import hook tolerates sys.modules entries without
 a name

---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index e2f4f78..4820280 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -92,7 +92,7 @@ def _opencv_try_patch_modules(debug=False):
     if module is None:
       # Happens e.g. for module_name == 'encodings.__builtin__' pseudo-modules.
       continue
-    if module.__name__ != _OPENCV_MODULE_SELF_NAME:
+    if getattr(module, '__name__', None) != _OPENCV_MODULE_SELF_NAME:
       continue  # This is not OpenCV.
     # Let us make (reasonably) sure that this candidate module, which calls
     # itself 'cv2', actually is OpenCV.
@@ -118,7 +118,7 @@ def _imageio_try_patch_modules(debug=False):
     if module is None:
       # Happens e.g. for module_name == 'encodings.__builtin__' pseudo-modules.
       continue
-    if module.__name__ != _IMAGEIO_MODULE_SELF_NAME:
+    if getattr(module, '__name__', None) != _IMAGEIO_MODULE_SELF_NAME:
       continue  # This is not imageio.
     # Let us make (reasonably) sure that this candidate module actually is
     # imageio.
@@ -144,7 +144,7 @@ def _pil_pillow_try_patch_modules(debug=False):
     if module is None:
       # Happens e.g. for module_name == 'encodings.__builtin__' pseudo-modules.
       continue
-    if module.__name__ != _PIL_MODULE_SELF_NAME:
+    if getattr(module, '__name__', None) != _PIL_MODULE_SELF_NAME:
       continue  # This is neither PIL nor Pillow.
     # Let us make (reasonably) sure that this candidate module actually is
     # PIL/Pillow.
@@ -170,7 +170,7 @@ def _pythonmagick_try_patch_modules(debug=False):
     if module is None:
       # Happens e.g. for module_name == 'encodings.__builtin__' pseudo-modules.
       continue
-    if module.__name__ != _PYTHONMAGICK_MODULE_SELF_NAME:
+    if getattr(module, '__name__', None) != _PYTHONMAGICK_MODULE_SELF_NAME:
       continue  # This is not PythonMagick.
     # Let us make (reasonably) sure that this candidate module actually is
     # PythonMagick.
@@ -200,7 +200,7 @@ def _try_patch_all(debug=False):
   # imports PIL as needed, e.g. for jpeg. We address this by loading PIL
   # straightaway if we find that matplotlib.image has been loaded. Afterwards,
   # we patch up all modules (including PIL).
-  if any(m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
+  if any(getattr(m, '__name__', None) == _MATPLOTLIB_IMAGE_SELF_NAME
          for m in sys.modules.values()):
     # Just make sure the PIL image module gets entered into sys.modules.
     # It is actually OK to do this even if we are not quite sure that
-- 
2.43.0


From 99913ec75ff9bbeb6875d9c679bb85e5ee37527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 24/28] fix: imageio format is not registered twice

---
 contrib/py/jxl_library_patches/jxl_imageio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contrib/py/jxl_library_patches/jxl_imageio.py b/contrib/py/jxl_library_patches/jxl_imageio.py
index dee73e5..044dad2 100644
--- a/contrib/py/jxl_library_patches/jxl_imageio.py
+++ b/contrib/py/jxl_library_patches/jxl_imageio.py
@@ -14,6 +14,9 @@ import imageio
 import imageio.core
 
 
+_FORMAT_NAME = 'JPEG-XL'
+
+
 # Extending imageio with plugins:
 # https://imageio.readthedocs.io/en/stable/plugins.html
 class _JpegXLFormat(imageio.core.Format):
@@ -82,9 +85,11 @@ def register_jxl_support(imageio_module):
   # Jpeg-XL.
   assert id(imageio_module) == id(imageio), (
       'User-passed `imageio` module differs from `import imageio` result.')
+  if _FORMAT_NAME in imageio_module.formats.get_format_names():
+    return  # Already registered; registering it again would be an error.
   imageio_module.formats.add_format(
       _JpegXLFormat(
-          'JPEG-XL',
+          _FORMAT_NAME,
           'JPEG-XL (partial support; reads recompressed JPEG only.)',
           '.jxl',
           'iI',
-- 
2.43.0


From 058580f9afdb6d57c5a53ec34dc6197d37b821a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 25/28] fix: an integer argument is not taken for a JPEG XL
 file name

---
 contrib/py/jxl_library_patches/jxl_pythonmagick.py | 4 ++++
 contrib/py/jxl_library_patches/jxl_utils.py        | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/contrib/py/jxl_library_patches/jxl_pythonmagick.py b/contrib/py/jxl_library_patches/jxl_pythonmagick.py
index 21509b5..4ee44e0 100644
--- a/contrib/py/jxl_library_patches/jxl_pythonmagick.py
+++ b/contrib/py/jxl_library_patches/jxl_pythonmagick.py
@@ -22,6 +22,10 @@ def _get_pymagic_wrapped_image_init(orig_init_func):
     """{Docstring will get replaced by original function's}."""
     is_jxl = None
     try:
+      if isinstance(args[0], int):
+        # Not a file name (e.g. a width); open() would take it for a file
+        # descriptor and close that.
+        raise TypeError()
       with open(args[0], 'rb') as h:
         header = h.read(len(jxl_utils.JPEGXL_RECOMPRESSED_JPEG_HEADER))
         is_jxl = header == jxl_utils.JPEGXL_RECOMPRESSED_JPEG_HEADER
diff --git a/contrib/py/jxl_library_patches/jxl_utils.py b/contrib/py/jxl_library_patches/jxl_utils.py
index e02b209..86e8474 100644
--- a/contrib/py/jxl_library_patches/jxl_utils.py
+++ b/contrib/py/jxl_library_patches/jxl_utils.py
@@ -43,6 +43,8 @@ def can_call_converter():
 
 def is_jpegxl_recompressed_jpeg_file(filename):
   """Returns True iff the given filename is a genuine JPEG-XL file."""
+  if isinstance(filename, int):
+    return False  # open() would take it for a file descriptor and close that.
   try:
     with open(filename, 'rb') as h:
       header = h.read(len(JPEGXL_RECOMPRESSED_JPEG_HEADER))
-- 
2.43.0


From cbd244621475fbd4f3985c641a2dea2e1a60fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 26/28] fix: restore an empty file stored in a bypass stream

---
 c/dec/jpeg_data_writer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index be47d5e..2e76b90 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1013,14 +1013,18 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
         }
         // JpegBypass is a very simple / special case.
         if (jpg.version == kFallbackVersion) {
-          if (jpg.original_jpg == nullptr) {
+          // Empty payload is valid; see DecodeOriginalJpg.
+          if (jpg.original_jpg == nullptr && jpg.original_jpg_size > 0) {
             ss.stage = SerializationState::ERROR;
             break;
           }
           // TODO(eustas): investigate if bad things can happen when complete
           //               file is passed to parser, but it is impossible to
           //               push complete output.
-          ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          if (jpg.original_jpg_size > 0) {
+            ss.output_queue.emplace_back(jpg.original_jpg,
+                                         jpg.original_jpg_size);
+          }
           maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
-- 
2.43.0


From 6df3b9c677c0d3ece3bad7fd5b1306604f7cc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 27/28] fix: require quant and histogram sections in group
 streams

---
 c/experimental/groups.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index e2b3a0b..79a615e 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -401,6 +401,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -427,6 +428,9 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  // Group decoders do not check that the common sections they rely on are met.
+  if (!HasSection(&state, brunsli::kBrunsliQuantDataTag)) return false;
+  if (!HasSection(&state, brunsli::kBrunsliHistogramDataTag)) return false;
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From 4eec036d1400843c10e02c71d6c8c2e6942d51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:00 +0000
Subject: [PATCH 28/28] fix: reading only the tables of a JPEG took the
 contents of other segments for markers

APP, COM and SOS segments were not skipped by their length, so that a
thumbnail inside of them gave wrong tables or made the file unreadable.
---
 c/enc/jpeg_data_reader.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 0ece595..ef2c455 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -419,6 +419,17 @@ bool ProcessCOM(const uint8_t* data, const size_t len, size_t* pos,
   return true;
 }
 
+// Skips a marker segment, whatever it contains.
+bool SkipSegment(const uint8_t* data, const size_t len, size_t* pos,
+                 JPEGData* jpg) {
+  BRUNSLI_VERIFY_LEN(2);
+  size_t marker_len = ReadUint16(data, pos);
+  BRUNSLI_VERIFY_INPUT(marker_len, 2, 65535, MARKER_LEN);
+  BRUNSLI_VERIFY_LEN(marker_len - 2);
+  *pos += marker_len - 2;
+  return true;
+}
+
 // Helper structure to read bits from the entropy coded data segment.
 struct BitReaderState {
   BitReaderState(const uint8_t* data, const size_t len, size_t pos)
@@ -1082,6 +1093,8 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
         if (mode == JPEG_READ_ALL) {
           ok = ProcessScan(data, len, dc_huff_lut, ac_huff_lut,
                            scan_progression, is_progressive, &pos, jpg);
+        } else {
+          ok = SkipSegment(data, len, &pos, jpg);
         }
         break;
       case 0xdb:
@@ -1108,11 +1121,15 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
       case 0xef:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessAPP(data, len, &pos, jpg);
+        } else {
+          ok = SkipSegment(data, len, &pos, jpg);
         }
         break;
       case 0xfe:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessCOM(data, len, &pos, jpg);
+        } else {
+          ok = SkipSegment(data, len, &pos, jpg);
         }
         break;
       default:
-- 
2.43.0

