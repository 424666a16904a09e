From f01d0340bdf42e2c751da3698daf65db0919981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:21 +0000
Subject: [PATCH 01/33] fix: sw842_decompress: reject REPEAT with less than 8
 bytes of output

A SHORT_DATA item can leave 1 to 7 bytes in the output, in which case a
following REPEAT copied bytes located before the output buffer.
---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..6895583 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous 8 bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From 81464f66469fdaaa5d546ff49234d73a4659cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:21 +0000
Subject: [PATCH 02/33] fix: optsw842_compress: report an output length of 0
 for unsupported lengths

This is the documented value of @olen on error, and what every other error
return of the function does.
---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From a499984a367ccc241a26c1638b195fabeb608510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:22 +0000
Subject: [PATCH 03/33] fix: optsw842_compress: don't read past the end of an
 empty input

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..d71458a 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -607,7 +607,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = p->ilen > 7 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 9c9754dc6707f7a39f83f5ebcf1346d50d9e8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:22 +0000
Subject: [PATCH 04/33] fix: chunked (de)compression: don't truncate chunk
 offsets to 32 bits

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..9511324 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From 092cb1c759eed84692c7c967bc93240eceb57312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:22 +0000
Subject: [PATCH 05/33] fix: chunked (de)compression: return the first error of
 the chunks

The error was computed, but 0 was returned in all cases.
---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index 9511324..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From 8ddd355275706e5c1beb41f41c2ce120a13c5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:46 +0000
Subject: [PATCH 06/33] fix: Block::get_chunk: the assertion for uncompressed
 chunks was inverted

---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From ac18b2c72f26b60d2ce1135156de2c71b14d3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:46 +0000
Subject: [PATCH 07/33] fix: DataDecompressionStream: fail instead of asserting
 on chunks with wrong data or size

---
 src/stream/DataDecompressionStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..1ff09c5 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -248,8 +248,10 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (input_chunk_sizes[i] == SIZE_MAX) // Not handled by the 842 implementation
+			continue;
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 258c3578d0ff7214619dbc984fd5ef9edf79d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 08/33] fix: streams: _quit is read without holding the mutex,
 make it atomic

---
 include/lib842/stream/comp.h   | 2 +-
 include/lib842/stream/decomp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..0140b8c 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..4942737 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From 61c726f5a722ee42fe525a7ff586489a9217a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:31 +0000
Subject: [PATCH 09/33] fix: NUMA spreading: get_nprocs() is no upper bound of
 the processor numbers

---
 src/stream/numa_spread.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..406a417 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,6 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +43,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node(), nprocs = numa_num_possible_cpus();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
-- 
2.43.0


From d06ede774eca85314fa03fed1346bb4b53c6d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:29 +0000
Subject: [PATCH 10/33] fix: CLHostDecompressor: don't map an empty output
 buffer

---
 src/ocl/cl842decompress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..b55b778 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -432,7 +432,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					      chunkShuffleMapBuffer, returnValuesBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
-		cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
+		// Avoid a CL_INVALID_VALUE if outputBufferSize == 0
+		if (outputBufferSize != 0)
+			cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
 	}
 
 	if (m_profile && time != nullptr) {
-- 
2.43.0


From 25ed9e8154e1dc89b428bd09dcb5840adc78e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:03 +0000
Subject: [PATCH 11/33] fix: OpenCL kernel: 2-byte index references read 2
 bytes too many

---
 src/ocl/decompress.cl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..590d259 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -247,8 +247,11 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			offset >>= 1;
 			__global uint16_t *ostart16 =
 				(__global uint16_t *)p->ostart;
-			value = (((uint64_t)swap_be_to_native16(ostart16[offset])) << 48) |
-				(((uint64_t)swap_be_to_native16(ostart16[offset + 1])) << 32);
+			value = ((uint64_t)swap_be_to_native16(ostart16[offset])) << 48;
+			// Don't read past the end of the output for a 2-byte reference
+			// to its last bytes
+			if (dst_size == 4)
+				value |= ((uint64_t)swap_be_to_native16(ostart16[offset + 1])) << 32;
 			value >>= (WSIZE - (dst_size << 3));
 		}
 		output_word |= value
-- 
2.43.0


From 1c9b1679476c0d9d72e7915ea40d83571bb4f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:38 +0000
Subject: [PATCH 12/33] fix: OpenCL kernel: lookahead must not read a partial
 last word past the end of the input

---
 src/ocl/decompress.cl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 590d259..426bc5c 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -128,7 +128,7 @@ static inline uint64_t read_bits(struct sw842_param_decomp *p, uint32_t n)
 		p->lookAheadBuffer[2] = p->lookAheadBuffer[3];
 		p->lookAheadBuffer[3] = p->lookAheadBuffer[4];
 		p->lookAheadBuffer[4] = p->lookAheadBuffer[5];
-		p->lookAheadBuffer[5] = ((p->in - p->istart + 6) * sizeof(uint64_t) < p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
+		p->lookAheadBuffer[5] = ((p->in - p->istart + 7) * sizeof(uint64_t) <= p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
 #else
 		p->buffer = swap_be_to_native64(*p->in);
 #endif
@@ -282,12 +282,12 @@ static inline int decompress_core(__global const uint64_t *RESTRICT_UNLESS_INPLA
 
 	p.buffer = 0;
 #ifdef USE_LOOKAHEAD_BUFFER
-	p.lookAheadBuffer[0] = ((p.in - p.istart) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
-	p.lookAheadBuffer[1] = ((p.in - p.istart + 1) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
-	p.lookAheadBuffer[2] = ((p.in - p.istart + 2) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
-	p.lookAheadBuffer[3] = ((p.in - p.istart + 3) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
-	p.lookAheadBuffer[4] = ((p.in - p.istart + 4) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
-	p.lookAheadBuffer[5] = ((p.in - p.istart + 5) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
+	p.lookAheadBuffer[0] = ((p.in - p.istart + 1) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
+	p.lookAheadBuffer[1] = ((p.in - p.istart + 2) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
+	p.lookAheadBuffer[2] = ((p.in - p.istart + 3) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
+	p.lookAheadBuffer[3] = ((p.in - p.istart + 4) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
+	p.lookAheadBuffer[4] = ((p.in - p.istart + 5) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
+	p.lookAheadBuffer[5] = ((p.in - p.istart + 6) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
 #endif
 	p.bits = 0;
 
-- 
2.43.0


From 83982459f564adc401ca13dba4b0157fb0c70c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:18 +0000
Subject: [PATCH 13/33] fix: OpenCL: bound chunks whose sizes are omitted by
 the chunk stride and size

---
 src/ocl/cl842decompress.cpp | 5 ++++-
 src/ocl/decompress.cl       | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index b55b778..b581dbb 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -420,7 +420,10 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 			throw cl::Error(CL_INVALID_VALUE);
 		}
 
-		cl::Buffer inputBuffer(m_context, CL_MEM_READ_ONLY, inputBufferSize);
+		// If the sizes of the chunks aren't given, the kernel may read
+		// up to the full stride of the last chunk
+		cl::Buffer inputBuffer(m_context, CL_MEM_READ_ONLY,
+			inputChunkSizes != nullptr ? inputBufferSize : numChunks * m_chunkStride);
 		// Avoid a CL_INVALID_BUFFER_SIZE if outputBufferSize == 0
 		cl::Buffer outputBuffer(m_context, CL_MEM_READ_WRITE,
 					outputBufferSize != 0 ? outputBufferSize : 1);
diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 426bc5c..874cda7 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -407,7 +407,7 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 	__global uint64_t *my_out = out + (outOffset / 8) + ((CL842_CHUNK_SIZE / 8) * chunk_num);
 	__global const uint64_t *my_in = in + (inOffset / 8) + ((CL842_CHUNK_STRIDE / 8) * chunk_num);
 
-	size_t my_ilen = ilen != NULL ? ilen[chunk_num] : (size_t)-1;
+	size_t my_ilen = ilen != NULL ? ilen[chunk_num] : CL842_CHUNK_STRIDE;
 
 #if defined(USE_MAYBE_COMPRESSED_CHUNKS) || defined(USE_INPLACE_COMPRESSED_CHUNKS)
 	if (my_in[0] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[0] ||
@@ -439,7 +439,7 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 			    // nonesense and just pass the lengths with ilen everywhere
 	my_in += (CL842_CHUNK_SIZE - my_in[2]) / 8;
 #endif
-	size_t my_olen = olen != NULL ? olen[chunk_num] : (size_t)-1;
+	size_t my_olen = olen != NULL ? olen[chunk_num] : CL842_CHUNK_SIZE;
 
 	int ret = decompress_core(my_in, my_ilen, my_out, &my_olen);
 	if (olen)
-- 
2.43.0


From 6acde911a3141e08e1b70077484af5927a189883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:53 +0000
Subject: [PATCH 14/33] fix: CLDeviceDecompressor::decompress: take the
 arguments in the documented order

The declaration in cl.h has returnValues before chunkShuffleMap, the definition
had them swapped: whoever followed the header had the return values read as the
shuffle map and the shuffle map overwritten with return values.
---
 src/ocl/cl842decompress.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index b581dbb..ba6006d 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -48,8 +48,8 @@ void CLDeviceDecompressor::decompress(const cl::CommandQueue &commandQueue,
 				      const cl::Buffer &outputBuffer,
 				      size_t outputOffset,
 				      const cl::Buffer &outputChunkSizes,
-				      const cl::Buffer &chunkShuffleMap,
 				      const cl::Buffer &returnValues,
+				      const cl::Buffer &chunkShuffleMap,
 				      const cl::vector<cl::Event> *events,
 				      cl::Event *event) const
 {
@@ -403,7 +403,7 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      buffer, 0, inputSizesBuffer,
 					      buffer, 0, outputSizesBuffer,
-					      chunkShuffleMapBuffer, returnValuesBuffer,
+					      returnValuesBuffer, chunkShuffleMapBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
 		cl::copy(m_queue, buffer, output, output + outputBufferSize);
@@ -432,7 +432,7 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      inputBuffer, 0, inputSizesBuffer,
 					      outputBuffer, 0, outputSizesBuffer,
-					      chunkShuffleMapBuffer, returnValuesBuffer,
+					      returnValuesBuffer, chunkShuffleMapBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
 		// Avoid a CL_INVALID_VALUE if outputBufferSize == 0
-- 
2.43.0


From 56195f4093dfa7d6d6a5f8b17d2e50fca47ffb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:53 +0000
Subject: [PATCH 15/33] fix: CLHostDecompressor: preserve chunks that are
 already in the destination

In the MAYBE_COMPRESSED_CHUNKS format, the kernel skips chunks marked as being
already in the destination, but the host decompressor copied uninitialized
device memory over those chunks of the caller's output buffer.
---
 src/ocl/cl842decompress.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index ba6006d..80cd769 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -429,6 +429,11 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					outputBufferSize != 0 ? outputBufferSize : 1);
 
 		cl::copy(m_queue, input, input + inputBufferSize, inputBuffer);
+		// Chunks marked as "already in destination" aren't written by the kernel
+		if (m_inputFormat ==
+			    CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS &&
+		    outputBufferSize != 0)
+			cl::copy(m_queue, output, output + outputBufferSize, outputBuffer);
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      inputBuffer, 0, inputSizesBuffer,
 					      outputBuffer, 0, outputSizesBuffer,
-- 
2.43.0


From cc9a6dd6dcc993bde85d1a81056c2d6033269d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:53 +0000
Subject: [PATCH 16/33] fix: cl842_decompress: inputs longer than 99999 bytes
 are also a single chunk

The chunk stride does matter: the number of chunks is computed from it, so
longer inputs read the sizes of, and wrote return values for, chunks that don't
exist (stack memory). Also don't let exceptions other than cl::Error (such as
std::bad_alloc) out of the C API.
---
 src/ocl/cl842decompress.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 80cd769..e9d644a 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <algorithm>
 #include <iterator>
+#include <limits>
 
 #define LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
 
@@ -473,13 +474,15 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536,
+			// There is a single chunk, whatever its size is
+			std::numeric_limits<ptrdiff_t>::max(),
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
-	} catch (const cl::Error &) {
+	} catch (const std::exception &) {
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
 		return -ENOMEM;
-- 
2.43.0


From 8c680d1fd1b4fa796e7cadaf35416d8950ad8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 17/33] fix: OpenCL kernel: validate the compressed size stored
 in a chunk's header

A size that doesn't fit in the chunk made the kernel read its compressed data
from in front of the chunk (or from arbitrary memory).
---
 src/ocl/decompress.cl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 874cda7..add542b 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -433,6 +433,17 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 		return;
 	}
 
+#ifdef ENABLE_ERROR_HANDLING
+	// The compressed data must fit between the header and the end of the chunk
+	if (my_in[2] % 8 != 0 || my_in[2] > CL842_CHUNK_SIZE - 24) {
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
+#endif
+
 	// Read compressed chunk size and skip to the beginning of the chunk
 	// (the end of the chunk matches the end of the input chunk buffer)
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
-- 
2.43.0


From 80434a87866814b79c1377bdde868fcefa52f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 18/33] fix: OpenCL kernel: respect the maximum size of an
 uncompressed chunk

outputChunkSizes specifies the maximum size to be written for each chunk, but
uncompressed chunks were always copied as a whole.
---
 src/ocl/decompress.cl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index add542b..9e4d415 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -413,6 +413,14 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 	if (my_in[0] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[0] ||
 	    my_in[1] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[1]) {
 #ifdef USE_MAYBE_COMPRESSED_CHUNKS
+#ifdef ENABLE_ERROR_HANDLING
+		if (olen && olen[chunk_num] < CL842_CHUNK_SIZE) {
+			olen[chunk_num] = 0;
+			if (returnValues)
+				returnValues[chunk_num] = -ENOSPC;
+			return;
+		}
+#endif
 		// Copy uncompressed chunk from temporary input buffer to output buffer
 		for (size_t i = 0; i < CL842_CHUNK_SIZE / 8; i++) {
 			my_out[i] = my_in[i];
-- 
2.43.0


From fc8a09476c70f7aabe6ac6290a6b756fb5e9ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 19/33] fix: OpenCL program cache: handle corrupt lengths

A corrupt cache file made the constructor of the decompressor throw
std::length_error or std::bad_alloc instead of regenerating the cache.
---
 src/ocl/cl842decompress.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index e9d644a..4d9c97f 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -131,6 +131,21 @@ struct program_cache
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
+	// Reads the length of the data that follows it in the file
+	static size_t readLength(std::ifstream &in) {
+		size_t length;
+		in.read(reinterpret_cast<char *>(&length), sizeof(length));
+
+		// Don't try to allocate an arbitrary length from a corrupt file
+		auto pos = in.tellg();
+		in.seekg(0, std::ifstream::end);
+		auto remaining = in.tellg() - pos;
+		in.seekg(pos);
+		if (length > static_cast<size_t>(remaining))
+			throw std::ifstream::failure("Corrupt program cache");
+		return length;
+	}
+
 	void readMetadata(std::ifstream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
@@ -141,8 +156,7 @@ private:
 		in.read(reinterpret_cast<char *>(&numDevices), sizeof(numDevices));
 
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t length;
-			in.read(reinterpret_cast<char *>(&length), sizeof(length));
+			size_t length = readLength(in);
 			cl::string deviceName(length, '\0');
 			in.read(&deviceName[0], deviceName.size());
 			deviceNames.push_back(deviceName);
@@ -152,8 +166,7 @@ private:
 	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t size;
-			in.read(reinterpret_cast<char *>(&size), sizeof(size));
+			size_t size = readLength(in);
 			cl::vector<uint8_t> binary(size);
 			in.read(reinterpret_cast<char *>(binary.data()), binary.size());
 			binaries.push_back(binary);
-- 
2.43.0


From 460d47a339b352b9c9289a7d7767f2752889fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 20/33] fix: OpenCL program cache: store the binaries of the
 given devices

If the decompressor is created for some of the devices of the context, the
binaries of all devices were stored (or rather, an assertion failed), so those
of other devices could have been loaded from the cache.
---
 src/ocl/cl842decompress.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 4d9c97f..e7038e3 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -274,7 +274,19 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	// The program has binaries for all devices of the context
+	auto programDevices = m_program.getInfo<CL_PROGRAM_DEVICES>();
+	auto programBinaries = m_program.getInfo<CL_PROGRAM_BINARIES>();
+	cl::Program::Binaries deviceBinaries;
+	for (const auto &d : devices) {
+		for (size_t i = 0; i < programDevices.size(); i++) {
+			if (programDevices[i]() == d()) {
+				deviceBinaries.push_back(programBinaries[i]);
+				break;
+			}
+		}
+	}
+	cache.set(deviceBinaries);
 #endif
 }
 
-- 
2.43.0


From 36d99286f9a3e9ade041036f0ed9e997808b0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 21/33] fix: OpenCL program cache: failing to write the cache
 is not an error

The decompressor couldn't be created if the cache file wasn't writable
(for example, because it belongs to another user).
---
 src/ocl/cl842decompress.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index e7038e3..e72c5ce 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -286,7 +286,13 @@ void CLDeviceDecompressor::buildProgram(
 			}
 		}
 	}
-	cache.set(deviceBinaries);
+	try {
+		cache.set(deviceBinaries);
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From 6efff9aaf1dfb62bc38e07aa5a9106e59c02beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:36 +0000
Subject: [PATCH 22/33] fix: OpenCL program cache: replace the cache file
 atomically

If writing the cache failed or the process ended while doing so, a partial
cache was left behind, and concurrent processes (or threads) could mix their
contents or read a partially written one. Since the binaries aren't checksummed,
a program consisting of zeros or of parts of two programs may have been loaded.
---
 src/ocl/cl842decompress.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index e72c5ce..cae7ab4 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -12,7 +12,12 @@
 
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <fstream>
+#include <string>
+#include <sys/stat.h>
+#include <unistd.h>
 #include "../common/crc32.h"
 #endif
 
@@ -122,10 +127,28 @@ struct program_cache
 	void set(const cl::Program::Binaries &binaries) const {
 		assert(deviceNames.size() == binaries.size());
 
-		std::ofstream out(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
-		out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
-		writeMetadata(out);
-		writeBinaries(out, binaries);
+		// Write to a temporary file and move it into place when it's complete, so
+		// that nobody can see (or leave behind) a partially written cache
+		std::string tempPath = std::string(CACHE_PATH) + ".XXXXXX";
+		int fd = mkstemp(&tempPath[0]);
+		if (fd == -1)
+			throw std::ofstream::failure("Could not create program cache");
+		fchmod(fd, 0644);
+		close(fd);
+
+		try {
+			std::ofstream out;
+			out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+			out.open(tempPath, std::ofstream::out | std::ofstream::binary);
+			writeMetadata(out);
+			writeBinaries(out, binaries);
+			out.close();
+			if (std::rename(tempPath.c_str(), CACHE_PATH) != 0)
+				throw std::ofstream::failure("Could not replace program cache");
+		} catch (...) {
+			std::remove(tempPath.c_str());
+			throw;
+		}
 	}
 
 private:
-- 
2.43.0


From ca41d7640f1caf5412ae5d423e2e57b3a84145a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:50 +0000
Subject: [PATCH 23/33] fix: cryptodev: failure to create the thread-specific
 key was forgotten

create_thread_ctx_key reset the error it had just recorded, so the key was used without existing.
---
 src/cryptodev/842_interface.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..8b517df 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,6 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From f32ba26ceda62f644c6931f52dda3fe39dcf193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:50 +0000
Subject: [PATCH 24/33] fix: cryptodev: alignment mask was uninitialised
 without CIOCGSESSINFO

It decided which requests are rejected with -EINVAL and the published required alignment.
---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 8b517df..662da92 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From 892f75604cd4cea78f4e64467cee45d6e939a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:50 +0000
Subject: [PATCH 25/33] fix: cryptodev: the preferred alignment could be less
 than the required one

Users allocate their buffers with the preferred alignment; the device then rejected them.
---
 src/cryptodev/842_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 662da92..35709b9 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -335,6 +335,9 @@ const struct lib842_implementation *get_hw842_implementation() {
 	// if the buffers are page-aligned
 	if (hw842_implementation.preferred_alignment == 0)
 		hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+	// The preferred alignment must satisfy the required one as well
+	if (hw842_implementation.preferred_alignment < hw842_implementation.required_alignment)
+		hw842_implementation.preferred_alignment = hw842_implementation.required_alignment;
 
 	return &hw842_implementation;
 }
-- 
2.43.0


From 796b4be310cd9cb28d4b2c69f1dd1a08342a777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:50 +0000
Subject: [PATCH 26/33] fix: cl2c: report failures to open or write files

An unreadable input or unwritable (or full) output was reported as success, leaving an empty or truncated source file.
---
 src/tools/cl2c.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index 12b6b54..aea0d02 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -11,9 +11,17 @@ int main(int argc, char *argv[])
 	}
 
 	std::ifstream inputFile(argv[1], std::ifstream::in);
+	if (!inputFile.is_open()) {
+		std::cerr << "Could not open " << argv[1] << "\n";
+		exit(EXIT_FAILURE);
+	}
 	inputFile.exceptions(std::ifstream::badbit);
 	std::ofstream outputFile(argv[2], std::ifstream::out);
-	outputFile.exceptions(std::ofstream::badbit);
+	if (!outputFile.is_open()) {
+		std::cerr << "Could not open " << argv[2] << "\n";
+		exit(EXIT_FAILURE);
+	}
+	outputFile.exceptions(std::ofstream::failbit | std::ofstream::badbit);
 
 	outputFile << "const char *" << argv[3] << " =\n\"";
 
@@ -36,6 +44,7 @@ int main(int argc, char *argv[])
 	}
 
 	outputFile << "\"\n;\n";
+	outputFile.close();
 
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From b0b1d3d1235587fc086a6af0df0d8082232b2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:50 +0000
Subject: [PATCH 27/33] fix: aix: the preferred alignment was less than the
 required one

Users allocate their buffers with the preferred alignment.
---
 src/aix/aix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aix/aix.c b/src/aix/aix.c
index 7f44855..35816bb 100644
--- a/src/aix/aix.c
+++ b/src/aix/aix.c
@@ -25,7 +25,7 @@ const struct lib842_implementation *get_aix842_implementation() {
 		.decompress_chunked = aix842_decompress_chunked,
 		// From https://www.ibm.com/support/knowledgecenter/ssw_aix_71/a_bostechref/accel_compress.html
 		.required_alignment = 4096,
-		.preferred_alignment = 128
+		.preferred_alignment = 4096
 	};
 	return &aix842_implementation;
 };
-- 
2.43.0


From 3f8122d7b90142858b6a879aab2e53413483fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:20 +0000
Subject: [PATCH 28/33] fix: cuda: chunk addresses wrapped around at 2^24
 chunks

The products of the chunk number were computed with 32 bits.
---
 src/cuda/842_decompress.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/842_decompress.cu b/src/cuda/842_decompress.cu
index 4779425..5725edf 100644
--- a/src/cuda/842_decompress.cu
+++ b/src/cuda/842_decompress.cu
@@ -134,7 +134,7 @@ __device__ static inline uint64_t get_index(const struct sw842_param_decomp *p,
 __global__ void cuda842_decompress(__restrict__ const uint64_t *in,
 				   __restrict__ uint64_t *out)
 {
-	unsigned int chunk_num = blockIdx.x * blockDim.x + threadIdx.x;
+	size_t chunk_num = (size_t)blockIdx.x * blockDim.x + threadIdx.x;
 
 	struct sw842_param_decomp p;
 	p.ostart = p.out = out + ((LIB842_CUDA_CHUNK_SIZE / 8) * chunk_num);
-- 
2.43.0


From bf111e8ab8f8edc3687602d526f5767a9aabee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:24 +0000
Subject: [PATCH 29/33] fix: sw842: support data and streams of 4 GiB and more

The lengths are size_t, but results of more than UINT_MAX bytes were
refused with -ENOSPC (after doing all the work), although the buffer had
enough room; sw842_compress() produced streams sw842_decompress() refused.
---
 src/serial/842_compress.c   | 5 -----
 src/serial/842_decompress.c | 3 ---
 2 files changed, 8 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..146c72b 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -669,11 +669,6 @@ skip_comp:
 		p->olen -= pad;
 	}
 
-	if (unlikely((total - p->olen) > UINT_MAX)) {
-		ret = -ENOSPC;
-		goto cleanup;
-	}
-
 	*olen = total - p->olen;
 
 	//printf("Out: %lld bits (%f bytes)\n", outbits, (outbits / 8.0f));
diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 6895583..9c74908 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -402,9 +402,6 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 		return -EINVAL;
 	}
 
-	if (unlikely((total - p.olen) > UINT_MAX))
-		return -ENOSPC;
-
 	*olen = total - p.olen;
 
 	return 0;
-- 
2.43.0


From 5a7590dc315b63aec6077199193737bc35fe3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:22 +0000
Subject: [PATCH 30/33] fix: sw842, optsw842: report failed allocations instead
 of crashing

sw842_compress() and optsw842_compress() used the result of malloc()
unchecked, and uthash called exit() when it could not allocate. Return
-ENOMEM after releasing everything, as for any other error.
---
 src/serial/842_compress.c             | 24 ++++++++++++++++++++++--
 src/serial_optimized/842_compress.cpp |  9 +++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 146c72b..df3c30c 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -17,6 +17,13 @@
  */
 
 #include "842-internal.h"
+/* make replace_hash (the only user of HASH_ADD) return instead of exit() */
+#define HASH_NONFATAL_OOM 1
+#define uthash_nonfatal_oom(obj)                                               \
+	do {                                                                   \
+		free(obj);                                                     \
+		return -ENOMEM;                                                \
+	} while (0)
 #include "uthash/src/uthash.h"
 #include "uthash/src/utlist.h"
 #include "kerneldeps.h"
@@ -187,6 +194,8 @@ static uint8_t comp_ops[OPS_MAX][5] = { /* params size in bits */
 		if (h == NULL) {                                               \
 			h = (struct hlist_node##b *)malloc(                    \
 				sizeof(struct hlist_node##b));                 \
+			if (h == NULL)                                         \
+				return -ENOMEM;                                \
 			h->data = _n;                                          \
 			h->head = NULL;                                        \
 			HASH_ADD(hh, p->htable##b, data, b, h);                \
@@ -194,6 +203,8 @@ static uint8_t comp_ops[OPS_MAX][5] = { /* params size in bits */
                                                                                \
 		struct node##b##_el *el = (struct node##b##_el *)malloc(       \
 			sizeof(struct node##b##_el));                          \
+		if (el == NULL)                                                \
+			return -ENOMEM;                                        \
 		el->index = node_index;                                        \
 		DL_APPEND(h->head, el);                                        \
 	} while (0)
@@ -481,7 +492,7 @@ static void get_next_data(struct sw842_param *p)
  * only call this after finding/adding the current template
  * the dataN fields for the current 8 byte block must be already updated
  */
-static void update_hashtables(struct sw842_param *p)
+static int update_hashtables(struct sw842_param *p)
 {
 	uint64_t pos = p->in - p->instart;
 	uint64_t n8 = (pos >> 3) % (1 << I8_BITS);
@@ -495,6 +506,8 @@ static void update_hashtables(struct sw842_param *p)
 	replace_hash(p, 2, n2, 1);
 	replace_hash(p, 2, n2, 2);
 	replace_hash(p, 2, n2, 3);
+
+	return 0;
 }
 
 /* find the next template to use, and add it
@@ -545,6 +558,11 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 	uint8_t repeat_count = 0;
 	uint32_t crc;
 
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
+
 	p->htable2 = NULL;
 	p->htable4 = NULL;
 	p->htable8 = NULL;
@@ -613,7 +631,9 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 
 	repeat:
 		last = next;
-		update_hashtables(p);
+		ret = update_hashtables(p);
+		if (ret)
+			goto cleanup;
 		p->in += 8;
 		p->ilen -= 8;
 	}
diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index d71458a..9ee63b5 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -585,6 +585,10 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	}
 
 	auto *p = (struct sw842_param *)malloc(sizeof(struct sw842_param));
+	if (p == nullptr) {
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
@@ -600,6 +604,11 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	p->ilen = ilen;
 
 	p->stream = stream_open(out, *olen);
+	if (p->stream == nullptr) {
+		free(p);
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	try {
 		p->olen = *olen;
-- 
2.43.0


From bae167ffb7491a7faab3e0fc500b1663230217f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:39 +0000
Subject: [PATCH 31/33] fix: cl2c: escape carriage returns

A source file with CR LF line endings was embedded with raw carriage
returns in the string literals, which compilers treat as line ends:
the generated file did not compile.
---
 src/tools/cl2c.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index aea0d02..282054c 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -31,6 +31,9 @@ int main(int argc, char *argv[])
 		case '\n':
 			outputFile << "\\n\"\n\"";
 			break;
+		case '\r':
+			outputFile << "\\r";
+			break;
 		case '\\':
 			outputFile << "\\\\";
 			break;
-- 
2.43.0


From 5efa032ed44b521f35583da9e95d69949e57d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 32/33] fix: streams: stop the threads already running when the
 constructor fails

If a thread could not be created (or its NUMA binding threw), the vector
of joinable threads was destroyed, which terminates the process.
---
 include/lib842/stream/comp.h           |  1 +
 include/lib842/stream/decomp.h         |  1 +
 src/stream/DataCompressionStream.cpp   | 18 ++++++++++++++----
 src/stream/DataDecompressionStream.cpp | 18 ++++++++++++++----
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index 0140b8c..928ada1 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -75,6 +75,7 @@ private:
 #endif
 	};
 
+	void stop_threads();
 	void loop_compress_thread(size_t thread_id);
 	Block handle_block(size_t offset, stats_per_thread_t &stats) const;
 
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 4942737..73c3004 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -72,6 +72,7 @@ private:
 #endif
 	};
 
+	void stop_threads();
 	void loop_decompress_thread(size_t thread_id);
 	bool handle_block(const Block &block,
 			  stats_per_thread_t &stats) const;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 741be08..a74130e 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -36,13 +36,23 @@ DataCompressionStream::DataCompressionStream(
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
 	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
-	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
-		spread_threads_among_numa_nodes(_threads);
+	try {
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
+		if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
+			spread_threads_among_numa_nodes(_threads);
+	} catch (...) {
+		// The threads already running must not be left behind
+		stop_threads();
+		throw;
+	}
 }
 
 DataCompressionStream::~DataCompressionStream() {
+	stop_threads();
+}
+
+void DataCompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 1ff09c5..20943a6 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -29,13 +29,23 @@ DataDecompressionStream::DataDecompressionStream(
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
 	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
-	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
-		spread_threads_among_numa_nodes(_threads);
+	try {
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
+		if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
+			spread_threads_among_numa_nodes(_threads);
+	} catch (...) {
+		// The threads already running must not be left behind
+		stop_threads();
+		throw;
+	}
 }
 
 DataDecompressionStream::~DataDecompressionStream() {
+	stop_threads();
+}
+
+void DataDecompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
-- 
2.43.0


From 9504dc4717f46c43423a55ffc1ab407f45cc2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 33/33] fix: streams: a failed allocation in a worker thread
 terminated the process

Report it like any other failure of the operation. Dropping the queue
must not allocate memory either, as this happens in the error path.
---
 include/lib842/stream/decomp.h         |  1 +
 src/stream/DataCompressionStream.cpp   | 12 ++++++++++--
 src/stream/DataDecompressionStream.cpp | 10 ++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 73c3004..252660b 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -73,6 +73,7 @@ private:
 	};
 
 	void stop_threads();
+	void clear_queue();
 	void loop_decompress_thread(size_t thread_id);
 	bool handle_block(const Block &block,
 			  stats_per_thread_t &stats) const;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index a74130e..d1992a2 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <algorithm>
+#include <new>
 #include <stdexcept>
 #include <climits>
 #include <cerrno>
@@ -249,8 +250,15 @@ Block DataCompressionStream::handle_block(size_t offset, stats_per_thread_t &sta
 	block.chunk_padding = CHUNK_PADDING;
 	block.offset = offset;
 
-	uint8_t *chunk_buffer = block.allocate_buffer(
-		_impl842.preferred_alignment, CHUNK_PADDING);
+	uint8_t *chunk_buffer;
+	try {
+		chunk_buffer = block.allocate_buffer(
+			_impl842.preferred_alignment, CHUNK_PADDING);
+	} catch (const std::bad_alloc &) {
+		// An exception must not leave the thread, fail the operation instead
+		block.offset = SIZE_MAX; // Indicates error to the user
+		return block;
+	}
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	input_chunk_sizes.fill(CHUNK_SIZE);
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 20943a6..08ba6cd 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -94,10 +94,16 @@ void DataDecompressionStream::finalize(bool cancel, std::function<void(bool)> fi
 	_finalizing = true;
 	_finalize_callback = std::move(finalize_callback);
 	if (cancel)
-		_queue = std::queue<Block>();
+		clear_queue();
 	_queue_available.notify_all();
 }
 
+void DataDecompressionStream::clear_queue() {
+	// NB: Assigning an empty queue would need memory
+	while (!_queue.empty())
+		_queue.pop();
+}
+
 void DataDecompressionStream::loop_decompress_thread(size_t thread_id) {
 	stats_per_thread_t stats;
 #ifdef LIB842_STREAM_INDEPTH_TRACE
@@ -160,7 +166,7 @@ void DataDecompressionStream::loop_decompress_thread(size_t thread_id) {
 					std::lock_guard<std::mutex> lock(_mutex);
 					first_error = !_error;
 					_error = true;
-					_queue = std::queue<Block>();
+					clear_queue();
 				}
 
 				if (first_error) {
-- 
2.43.0

