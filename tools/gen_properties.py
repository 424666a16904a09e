#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SC, SD = "src/serial/842_compress.c", "src/serial/842_decompress.c"
OC, OD, OB = "src/serial_optimized/842_compress.cpp", "src/serial_optimized/842_decompress.cpp", "src/serial_optimized/bitstream.cpp"
CRC, CRCT, TC = "src/common/crc32.h", "src/common/crc32table.h", "src/common/trivial_chunked.h"
ST1, ST2, STH1, STH2, BLK = "src/stream/DataCompressionStream.cpp", "src/stream/DataDecompressionStream.cpp", "include/lib842/stream/comp.h", "include/lib842/stream/decomp.h", "include/lib842/stream/block.h"
BAR, LAT, NUMA = "include/lib842/detail/barrier.h", "include/lib842/detail/latch.h", "src/stream/numa_spread.cpp"
CL, CLC, CLH = "src/ocl/decompress.cl", "src/ocl/cl842decompress.cpp", "include/lib842/cl.h"
CDV = "src/cryptodev/842_interface.c"
PAT = "the pattern tests use six fixed data sets"

# ------------------------------------------------------------------ codec
prop("C01", "Compression followed by decompression is lossless",
 "For every input (of any length for sw842, of any multiple of 8 bytes for optsw842, including 0 bytes and more than 4 GiB) and a large enough output buffer, compressing returns 0, and decompressing exactly the reported number of compressed bytes with the same implementation into a buffer of the original length returns 0, reports the original length and reproduces every byte.",
 ["inputs"], "every byte string, every length", "Losslessness quantifies over all inputs; "+PAT+" and never enumerate hash collisions, repeat-count boundaries or index-ring wrap-around.",
 [SC, SD, OC, OD, OB], [("serial compressor/decompressor", SC+", "+SD), ("optimized compressor/decompressor", OC+", "+OD)],
 ["return value, *olen and output bytes of sw842_*/optsw842_*"])
prop("C02", "Streams are interchangeable between the sw842 and optsw842 implementations",
 "For every input whose length is a multiple of 8, the stream produced by either compressor is decompressed by the other implementation's decompressor to exactly the original bytes. A stream of an input whose length is not a multiple of 8 is never turned by optsw842_decompress into a success with other data.",
 ["inputs"], "every input x both compressor/decompressor pairings", "The cross tests only pair the implementations on six fixed data sets.",
 [SC, SD, OC, OD], [("two independent encoders and decoders of one format", "src/serial, src/serial_optimized")])
prop("C03", "The decompressors implement the 842 format, not just their compressor's subset",
 "For every well-formed 842 stream - any sequence of the 26 templates, REPEAT, ZEROS (and, for sw842, SHORT_DATA) ended by END and a correct checksum and padded to a whole number of 8-byte words, whether or not any lib842 compressor would emit it - sw842_decompress and optsw842_decompress return 0 and produce exactly the bytes the format definition prescribes, ignoring whatever follows the checksum.",
 ["inputs", "programs"], "every token sequence of the format, every operand value", "Tests only decode what the library's own compressors emit, which use few of the templates/index choices (the newest match only) the format (and hardware) allows.",
 [SD, OD, "src/common/842.h", "src/common/opcodes.h"], [("template tables", SD+" decomp_ops, "+OD+" switch"), ("bit readers", SD+" next_bits, "+OD+" read_bits")])
prop("C04", "Index references resolve against the right ring position at every output offset",
 "At every output position, including before, at and after each wrap of the 512-, 2048- and 2048-byte rings, every 2-, 4- and 8-byte index value that designates already produced data yields exactly those bytes, and every index value that does not is rejected; index references produced by the compressors for data repeated at any distance decode to the right data.",
 ["inputs", "histories"], "every output position over several ring periods x every index value x each index width", "Wrap-around depends on the joint value of position and index; tests reach only the few pairs their data produces.",
 [SD, OD, SC, OC], [("ring position arithmetic", SD+" __do_index, "+OD+" do_index"), ("index assignment", SC+" update_hashtables, "+OC+" update_hashtables")])
prop("C05", "Decompressing arbitrary bytes is memory safe and always terminates",
 "For every input byte string, input length, output capacity and alignment, sw842_decompress and optsw842_decompress return, never read outside the given input bytes or before/after the output bytes already produced, never write outside the given output capacity, and never perform undefined behaviour.",
 ["inputs"], "every byte string x every capacity x every alignment", "Untrusted input is unbounded; tests use a handful of malformed streams and no guard zones.",
 [SD, OD, CRC], [("bounds checks", SD+" next_bits/do_data/__do_index, "+OD+" read_word/do_index")])
prop("C06", "Malformed, truncated or oversized streams are rejected, never mis-decoded",
 "For every byte string and capacity that is not a complete well-formed stream fitting the capacity, the decompressors return a negative errno and report an output length of 0; a well-formed stream whose only problem is that its output does not fit the capacity is reported as -ENOSPC.",
 ["inputs"], "every token sequence cut at every byte, every invalid opcode/operand at every position, every capacity", "There are thousands of ways a stream may be malformed; the tests contain a few.",
 [SD, OD], [("error paths", SD+", "+OD)])
prop("C07", "The checksum guards the data: emitted correctly, always verified",
 "Compressed streams carry the CRC-32 (polynomial 0x04C11DB7, initial value 0, most significant bit first, no final inversion) of the uncompressed bytes, for every length and alignment of the input. sw842_decompress and optsw842_decompress succeed only if the stored checksum equals the checksum of the bytes they produced.",
 ["inputs"], "every data content/length/alignment; every corruption of a stream or its checksum", "The table-driven, alignment-dependent implementation has 2048 table entries and several head/tail paths; one test flips one checksum.",
 [CRC, CRCT, SC, SD, OC, OD], [("slice-by-8 CRC", CRC), ("checksum comparison", SD+", "+OD)])
prop("C08", "Compressors respect the output capacity and fail cleanly",
 "For every input and every output capacity, the compressors either return 0 with the same stream they produce when given ample space, or return -ENOSPC with a reported length of 0; capacity equal to the compressed size always suffices (a length that optsw842_compress does not support is refused with a negative value and a length of 0), and no byte beyond the capacity is ever written, nor any byte outside the input read.",
 ["inputs", "configurations"], "every input x every capacity from 0 to beyond the compressed size", "Tests try half and one-less of one size on six data sets; each capacity stops the writer at a different bit position.",
 [SC, OC, OB], [("capacity checks", SC+" add_bits, "+OB+" stream_write_word")])
prop("C09", "Results depend only on the arguments' values",
 "Whether a call of a compressor or decompressor succeeds, the length it reports and the bytes it produces are the same for every alignment of the buffers, every previous content of the output buffer and of free memory, and every history of previous calls (successful or failed), and the input buffer is never modified. (optsw842_compress may choose a different valid encoding of the same data when a buffer is not 8-byte aligned.)",
 ["inputs", "histories", "configurations"], "every alignment pair x buffer fill x call history", "Tests run one call per process at one or two alignments with zeroed buffers.",
 [SC, SD, OC, OD], [("per-call state", SC+" sw842_param, "+OC+" sw842_param")])
prop("C10", "Emitted streams are strictly conformant, padded and bounded in size",
 "Every stream emitted by a compressor decodes under a strict reading of the format, has a length that is a multiple of 8 consisting of the stream followed by fewer than 64 zero bits, contains SHORT_DATA only as the last item of an input whose length is not a multiple of 8 (so multiple-of-8 inputs stay hardware-decodable), and is never longer than the all-literal encoding (69 bits per 8 bytes plus tail, end marker and checksum, rounded up to 8 bytes).",
 ["inputs"], "every input", "The library's own lenient decoder hides non-conformance; tests never inspect the emitted bits.",
 [SC, OC, OB], [("bit writer", SC+" add_bits, "+OB), ("padding", SC+" sw842_compress, "+OB+" stream_flush")])
prop("C11", "Redundancy is exploited: ZEROS, REPEAT and the cheapest usable template",
 "Both compressors encode an 8-byte zero word that does not repeat its predecessor in 5 bits (ZEROS), and each maximal run of repetitions of a word in 11 bits per at most 64 repetitions (REPEAT). sw842_compress encodes every other word with the cheapest template (in bits) available given the data reachable through the index rings. optsw842_compress, which remembers one position per hash value, encodes a word made of recurring and new parts, whatever the combination, with a cheapest template in at least three of four cases.",
 ["inputs"], "every input", "A compressor that silently stops finding matches still round-trips, so tests that only round-trip cannot notice.",
 [SC, OC], [("template selection", SC+" process_next, "+OC+" get_template"), ("run detection", SC+" sw842_compress, "+OC+" optsw842_compress")])
prop("C12", "Chunked calls equal the sequence of single calls",
 "For every number of chunks, strides, per-chunk lengths and capacities, a chunked compress/decompress of sw842 and optsw842 gives each chunk exactly the return value, length and bytes that the single-chunk function gives for that chunk alone, touches nothing between the chunks, leaves chunks whose input length is SIZE_MAX completely untouched, and addresses chunk i at i*stride without truncation even beyond 4 GiB.",
 ["inputs", "configurations"], "every combination of per-chunk outcome x skip x stride", "No test calls the chunked functions at all.",
 [TC, "include/lib842/common.h"], [("chunk loop", TC)])
prop("C13", "A chunked call's overall status reports failed chunks",
 "The return value of a chunked call of sw842 and optsw842 is 0 if and only if every non-skipped chunk either succeeded or merely did not fit its output capacity (-ENOSPC); otherwise it is the error of the first chunk that failed for another reason.",
 ["inputs", "configurations"], "every vector of per-chunk outcomes", "No test calls the chunked functions at all.",
 [TC], [("overall status", TC)])
prop("C14", "A failed memory allocation is an error of that call, and nothing leaks",
 "sw842 and optsw842 calls, whatever they return, release everything they allocate. If any allocation a call makes fails (it alone or also every later one), the call either returns a negative errno and reports a length of 0, or succeeds with the right data; it never crashes, exits the process or throws, writes nothing outside its output capacity, and leaves later calls unaffected.",
 ["fault_sequences", "inputs"], "every input x every allocation of the call, failing alone or with all later ones", "No test makes an allocation fail; error paths that leak or use the result unchecked work in every test.",
 [SC, OC, OB], [("allocation and release of the parameter block and hash tables", SC+" sw842_compress, replace_hash, destroy_hashtable; "+OC+" optsw842_compress; "+OB+" stream_open")])
prop("C15", "Concurrent calls do not influence each other",
 "sw842 and optsw842 calls (single or chunked) made by several threads at the same time are independent: as long as no call writes to another's buffers, each returns, reports and writes exactly what it does when it runs alone, under every interleaving. This includes calls whose buffers touch (one call's output directly before or after another's input or output, interleaved chunks of one array) and calls that read the same input: a call writes nothing but its own output capacity, not even temporarily, leaves its input untouched throughout, reads no neighbouring bytes another thread may be writing, and any state it shares with other calls is synchronised (no data race).",
 ["schedules", "inputs", "configurations"], "every interleaving of 2-3 threads x pairs of calls x buffer layouts", "No test calls the library from two threads; a static buffer, an unsynchronised lazily built table or a store beyond the end that is put right afterwards gives correct results in any sequential test.",
 [SC, SD, OC, OD, OB], [("per-call state", SC+" sw842_param; "+OC+" sw842_param"), ("stores at the end of the output", OB+" stream_flush; "+SD+" do_data")])
# ------------------------------------------------------------------ streams
prop("S01", "The compression stream emits every block exactly once, then finalizes once",
 "For every schedule and every thread count, a compression operation hands every complete block of the input to the block callback exactly once, with the right offset and, per chunk, either the exact compressed bytes and their size or a reference to the uncompressed source for chunks that do not compress below the threshold; the finalization callback runs exactly once, with success, and only after the last block callback of the operation has returned. Blocks are processed as soon as the operation was started, without waiting for finalize. All buffers handed to the implementation are aligned as it requires; an implementation whose required alignment the streams cannot provide (it does not divide the chunk size) is rejected by the constructor.",
 ["schedules", "inputs", "configurations"], "all thread interleavings x block counts x per-chunk compressibility", "There are no stream tests; the guarantees concern interleavings of several worker threads.",
 [ST1, STH1, BLK], [("work distribution", ST1+" loop_compress_thread"), ("finalize barrier", ST1)],
 ["block callback, finalize callback"])
prop("S02", "Compressed blocks respect the configured epoch ordering",
 "When an offset epoch size is configured, for every schedule no block of a later epoch is handed to the block callback before every block of all earlier epochs has been delivered, and the operation still completes (also when it is cancelled, fails or the stream is destroyed). The epoch size configured last before an operation counts; 0 disables the ordering.",
 ["schedules", "configurations"], "all interleavings x epoch sizes x thread counts", "Ordering violations and lost barrier arrivals need specific interleavings.",
 [ST1, STH1, BAR], [("epoch barrier", ST1+" loop_compress_thread")])
prop("S03", "A compression failure is reported once and the operation still terminates",
 "If the 842 implementation fails for any block, for every schedule the operation still finalizes exactly once, reporting failure, the failing block is flagged to the user, no block is delivered more than once, each worker thread starts at most one more block once the failing one was flagged (however large the input is), and the next operation on the same stream starts with a clean status.",
 ["schedules", "fault_sequences"], "every set of failing blocks x all interleavings", "Needs an injected failure and specific interleavings with it; nothing tests this.",
 [ST1], [("error flag and work cancellation", ST1+" loop_compress_thread")])
prop("S04", "Cancelling a compression operation terminates it cleanly",
 "If a compression operation is finalized with cancel at any moment, for every schedule the finalize callback runs exactly once after all running block callbacks have returned, blocks delivered before are correct and delivered at most once, none is delivered afterwards, each worker thread starts at most one more block once the cancelling call has returned (however large the input is), and no thread is left stuck.",
 ["schedules"], "every cancellation point x all interleavings", "The cancellation point is a scheduling choice.",
 [ST1], [("cancellation through the shared offset", ST1+" finalize")])
prop("S05", "A stream can be reused for consecutive operations",
 "For every schedule, consecutive operations on one compression or decompression stream, whatever the outcome of the previous ones (success, failure, cancellation), including an operation started from inside the previous one's finalize callback, behave exactly like an operation on a fresh stream.",
 ["schedules", "histories"], "all operation sequences up to a length x all interleavings", "State carried over between operations shows only for particular sequences and interleavings.",
 [ST1, ST2], [("trigger counter and state reset", ST1+", "+ST2)])
prop("S06", "Destroying a stream at any time stops all threads without deadlock",
 "Destroying a compression or decompression stream at any moment - before any operation, during one, while it finalizes or after it - for every schedule returns after joining all worker threads, no callback runs afterwards, no memory is leaked or used after being freed.",
 ["schedules"], "every destruction point x all interleavings", "A lost wake-up at shutdown needs a particular interleaving.",
 [ST1, ST2, BAR], [("quit flag, notifications, barrier interruption", ST1+", "+ST2)])
prop("S07", "The decompression stream places every chunk exactly",
 "For every schedule, thread count and mixture of compressed, uncompressed and absent chunks, after the finalize callback has reported success the destination holds, for every pushed block, the decompressed (or copied) data of each present chunk at its place, bytes of absent chunks are untouched, each block is processed exactly once (without waiting for finalize), and the callback runs exactly once and not before. All buffers handed to the implementation are aligned as it requires; an implementation whose required alignment the streams cannot provide is rejected by the constructor.",
 ["schedules", "inputs"], "all interleavings x chunk mixes x block orders", "There are no stream tests.",
 [ST2, STH2, BLK], [("block queue", ST2+" push_block/loop_decompress_thread"), ("chunk placement", ST2+" handle_block")])
prop("S08", "Corrupt data makes a decompression operation fail, not crash or succeed",
 "If any pushed chunk cannot be decompressed to exactly one chunk of data (corrupt, truncated, wrong size), for every schedule the process survives, the finalize callback runs exactly once and reports failure, blocks pushed after the failure was recorded are refused, each worker thread processes at most one more block once a push was refused, and the next operation on the stream starts clean.",
 ["schedules", "fault_sequences", "inputs"], "every failing chunk/kind of failure x all interleavings", "Nothing tests streams with corrupt data.",
 [ST2, TC], [("error flag, queue clearing", ST2+" loop_decompress_thread/handle_block")])
prop("S09", "Cancelling a decompression operation terminates it cleanly",
 "If a decompression operation is finalized with cancel at any moment, for every schedule the callback runs exactly once after every running block has been processed, blocks not yet started are dropped (each worker thread starts at most one more once the cancelling call has returned) and never written later, and the stream can be reused.",
 ["schedules"], "every cancellation point x all interleavings", "The cancellation point is a scheduling choice.",
 [ST2], [("queue clearing", ST2+" finalize")])
prop("S10", "Latch and barrier synchronise correctly under every schedule",
 "Under every schedule, including spurious wake-ups: a latch's waiters return only after the counted number of count-downs and always return then; a barrier releases each group of its threads only when all of them arrived, for any number of consecutive rounds; after interruption no thread stays or gets stuck in it.",
 ["schedules"], "all interleavings and spurious wake-ups, 1-4 threads, several rounds", "Wake-up bugs need particular interleavings; nothing tests these classes.",
 [BAR, LAT], [("generation counter", BAR), ("counter", LAT)])
prop("S11", "The streams are free of data races and lock misuse",
 "In every schedule of the documented usage (one controlling thread plus callbacks on worker threads), all conflicting accesses to shared memory by the streams, latch and barrier are ordered by synchronisation, mutexes are used correctly, and no memory is accessed after it was freed.",
 ["schedules"], "all interleavings of the stream scenarios", "Races need not have visible effects in a test run.",
 [ST1, ST2, STH1, STH2, BAR, LAT], [("locking discipline", ST1+", "+ST2)])
prop("S12", "wait_until_ready returns exactly when all workers are running",
 "For every schedule and thread count, wait_until_ready of both streams returns only after every worker thread has started executing, always returns, and can be called repeatedly and at any time; an operation may also be started without calling it.",
 ["schedules"], "all interleavings, 1-4 threads", "Timing dependent.",
 [ST1, ST2, LAT], [("ready latch", ST1+", "+ST2)])
prop("S13", "Compression and decompression streams compose to the identity",
 "Feeding the blocks emitted by a compression stream over a real implementation, in any order, into a decompression stream over a real implementation restores the original data, for chunks of every kind: compressible, incompressible, and sized right at the compressibility threshold; every chunk of an emitted block is readable through the block's accessor.",
 ["inputs", "schedules"], "all assignments of chunk kinds over blocks, all block orders", "There are no stream tests; the sample program is not run by them.",
 [ST1, ST2, BLK], [("block representation", BLK), ("threshold", "include/lib842/stream/common.h")])
prop("S14", "NUMA spreading assigns threads round-robin and fails softly",
 "With the NUMA spreading policy, worker i is bound exactly to the processors of the (i mod n)-th of the n allowed NUMA nodes; when NUMA support is unavailable or binding fails the stream still works unbound; with the default policy no binding takes place.",
 ["configurations", "fault_sequences"], "every small node/cpu topology, allowed-node subset and failing call", "Needs NUMA topologies the test machine does not have.",
 [NUMA, ST1, ST2], [("cpuset computation", NUMA)])
prop("S15", "Streams survive a lack of threads or memory",
 "If a thread or memory a stream's constructor needs cannot be had (the k-th thread or allocation, for every k), the constructor throws, after every thread it had already started has been stopped and joined and without a leak, and a later construction works. If an allocation made by a worker thread during an operation fails, for every schedule the process goes on, the finalize callback runs exactly once and reports either failure (with the affected blocks flagged to the user of a compression stream) or success with all data right, and the next operation on the stream starts clean. If pushing a block throws for want of memory, only that block is affected; finalizing, with cancellation or not, and dropping the blocks of a failed operation never need memory.",
 ["fault_sequences", "schedules"], "every failing thread creation or allocation, per thread, x all interleavings up to a preemption bound", "No test makes a thread creation or an allocation fail; exceptions that leave a worker thread or destroy joinable threads terminate the process.",
 [ST1, ST2], [("construction", ST1+" constructor and stop_threads, "+ST2+" likewise"), ("block buffers", ST1+" handle_block"), ("dropping the queue", ST2+" clear_queue")])
# ------------------------------------------------------------------ OpenCL
prop("O01", "The OpenCL decompressor decodes every well-formed stream of every chunk",
 "For every batch of well-formed streams (without SHORT_DATA), the OpenCL decompressor reports 0, the right length and exactly the bytes prescribed by the format for every chunk, whatever its position in the batch and whatever its neighbours contain.",
 ["inputs", "programs", "configurations"], "every token sequence, chunk count and batch position", "OpenCL tests decode one chunk of six data sets, and only what lib842's compressors emit.",
 [CL, CLC], [("kernel", CL+" decompress_core"), ("chunk addressing", CL+" decompress")])
prop("O02", "OpenCL decoding of malformed chunks is contained and reported per chunk",
 "For every batch with malformed, truncated or oversized chunks (a wrong checksum alone is not detected by this decompressor), each such chunk's return value is a negative errno (-ENOSPC if only its capacity is too small), its reported length is 0, nothing is written outside its output capacity nor read outside the input and output buffers, and all other chunks decode as if alone.",
 ["inputs"], "every malformed token sequence, truncation, capacity", "Tests use one chunk and few malformed streams, without guard zones.",
 [CL], [("kernel error handling", CL)])
prop("O03", "MAYBE_COMPRESSED format: every chunk is classified and placed correctly",
 "In the MAYBE_COMPRESSED_CHUNKS format, for every chunk, a chunk that starts with the 16-byte marker is decompressed from the compressed bytes stored at the chunk's end, a marked chunk with size 0 leaves the destination alone and reports success with the chunk size as length, and any other chunk (also one that differs from the marker in a single bit) is copied verbatim; a stored size that does not fit into the chunk and a capacity that is too small are reported as a negative errno with length 0, for that chunk only. Input and output areas that are the same or (in this format) of different sizes are rejected.",
 ["inputs", "configurations"], "every combination of chunk kinds, every single-bit deviation of the marker, every compressed size", "Not covered by any test.",
 [CL, CLC, "include/lib842/common.h"], [("marker check", CL+" decompress")])
prop("O04", "OpenCL optional arguments and processing order do not change results",
 "Each optional argument of the host and device decompressors (input sizes, output sizes, return values, shuffle map, offsets) may be omitted or given independently, and for every permutation used as shuffle map and every input/output offset the decoded data and the values of the arguments given are the same; arguments passed in the documented order have the documented meaning.",
 ["configurations", "inputs"], "every subset of optional arguments x every permutation of up to 5 chunks x offsets", "Tests never use a shuffle map, device interface or omitted arguments.",
 [CLC, CLH, CL], [("kernel argument setup", CLC+" CLDeviceDecompressor::decompress"), ("host transfer", CLC+" CLHostDecompressor::decompress")])
prop("O05", "The OpenCL program cache never changes behaviour",
 "Whatever the program cache file contains - absent, written by a crashed process at any byte, stale for another configuration, kernel, device or truncated or corrupted at any byte of its metadata, or unreadable or unwritable - constructing a decompressor succeeds and it decodes exactly as with no cache; a valid cache of the same configuration is used.",
 ["crash_points", "fault_sequences", "histories", "configurations"], "every truncation point and metadata corruption, every configuration sequence", "Tests only ever see the cache they wrote themselves.",
 [CLC], [("program cache", CLC+" program_cache")])
prop("O06", "cl842_decompress behaves like the other decompressors for any input length",
 "For every well-formed stream of whole 64-bit words, of any compressed length, and every sufficient capacity, cl842_decompress returns 0 with exactly the prescribed bytes and length, touching no memory outside the caller's buffers; for malformed ones it returns a negative value and never lets a C++ exception escape.",
 ["inputs"], "every token sequence; compressed lengths beyond the internal stride", "Tests use short inputs only.",
 [CLC, CLH], [("simple C interface", CLC+" cl842_decompress")])
prop("O07", "Failing OpenCL calls are reported and leave everything usable",
 "Whichever single OpenCL call fails with whatever error code during construction or decompression, an accepted kernel execution that fails, or a failing memory allocation: the host decompressor throws cl::Error (std::bad_alloc) or still delivers the right result (never a wrong one, and never success when the kernel could not be run), releases every OpenCL object, and works when used or constructed again; the C interface returns a negative value instead, lets no exception escape, and works when called again.",
 ["fault_sequences", "configurations"], "every position of a failing OpenCL call, kernel execution or allocation x error code x format x interface x cached program or not", "No test makes an OpenCL call fail.",
 [CLC], [("error handling", CLC+" CLHostDecompressor, cl842_decompress, buildProgram")])
prop("O08", "In-place OpenCL decompression is right whenever the look-ahead suffices",
 "In the INPLACE_COMPRESSED_CHUNKS format, for every chunk whose output never overtakes the compressed data loaded so far (six 64-bit words of look-ahead), decompression in place gives the prescribed bytes; uncompressed and skipped chunks stay as they are; for every chunk whatsoever nothing outside that chunk is modified, the reported length never exceeds the chunk, and different input and output buffers are rejected.",
 ["inputs", "configurations"], "every combination of chunk kinds; every order of literals and runs around the look-ahead limit; every stored size", "One test decompresses six fixed data sets in place.",
 [CL, CLC, CLH], [("look-ahead buffer", CL+" read_bits"), ("in-place transfer", CLC+" CLHostDecompressor::decompress")])
prop("O09", "OpenCL device selection",
 "For every combination of platforms and of available and unavailable devices, the host decompressor uses all available GPUs of the first platform that has one; without any, all available CPUs of the first platform that has one; without any, it throws cl::Error with CL_DEVICE_NOT_FOUND (also in verbose mode, with the same results).",
 ["configurations"], "every combination of up to 4 (5) platforms with devices of 9 kinds", "Tests run on the one platform installed.",
 [CLC], [("device search", CLC+" CLHostDecompressor::findDevices")])
prop("O10", "Concurrent OpenCL decompressions do not influence each other",
 "Threads may decompress at the same time through one shared CLHostDecompressor (its decompress is const), through objects of their own or through cl842_decompress (also when its first calls coincide), and construct and destroy decompressors of the same or another configuration meanwhile: under every interleaving each call delivers exactly the data, lengths and per-chunk results of its own arguments, no kernel object's arguments are set while another call uses it, no OpenCL object is left over once the decompressors are gone, the program cache stays usable, and there is no data race.",
 ["schedules", "inputs", "configurations"], "every interleaving of 2-3 threads up to 2 preemptions x kinds of use x formats x cached or not", "Tests decompress from one thread; kernel objects or scratch buffers kept across calls give correct results there.",
 [CLC], [("kernel object and buffers per call", CLC+" CLDeviceDecompressor::decompress, CLHostDecompressor::decompress"), ("first use", CLC+" cl842_decompress")])
# ------------------------------------------------------------------ cryptodev
prop("H01", "Hardware sessions: one per thread, never leaked, errors propagated",
 "Over every sequence of calls by any threads and every failure of the underlying system calls, the cryptodev interface uses at most one device session per thread, closes every session and file descriptor it opened when the thread exits or set-up fails, opens the device close-on-exec, reports each failure as the negative errno of the failing call (-ENOMEM when memory or the thread-specific slot cannot be had; permanently if the slot key itself could not be created), and otherwise works again on the next call once the fault is gone.",
 ["fault_sequences", "histories", "schedules"], "every sequence of calls x every position of failing system calls", "The hardware interface is not built or tested without a crypto device.",
 [CDV], [("session set-up and tear-down", CDV+" c842_ctx_init/c842_ctx_deinit/get_thread_cryptodev_ctx")])
prop("H02", "Hardware requests carry exactly the caller's chunks",
 "For every valid combination of chunk count, strides, lengths (including skipped chunks), capacities and alignment the request handed to the device describes exactly those buffers and the device's per-chunk results and lengths are returned unchanged; combinations the device interface cannot represent or whose alignment is insufficient are rejected with -EINVAL before any request is made; the published implementation record requires exactly the alignment the device reports (the maximum when it could not be asked, none when it cannot tell) and prefers page alignment, or the required one if that is larger.",
 ["inputs", "configurations"], "every small combination plus every representability boundary", "The hardware interface is not built or tested without a crypto device.",
 [CDV, "include/lib842/hw.h"], [("request construction", CDV+" c842_compress_chunked")])
# ------------------------------------------------------------------ build tools
prop("T01", "Source embedding for the OpenCL kernel is exact",
 "For every text file (any sequence of bytes without NUL: ASCII, tabs, line feeds and carriage returns, UTF-8 or not), the C source generated by the embedding tool compiles to a string equal to the file, in particular for the kernel and the format definitions shipped; when the input cannot be read or the output cannot be written completely, the tool exits with a failure.",
 ["inputs"], "every character sequence up to a length over the special characters, plus the shipped files", "Only the shipped kernel is embedded by the build.",
 ["src/tools/cl2c.cpp", CL, "src/common/842.h"], [("escaping", "src/tools/cl2c.cpp")])
prop("T02", "The checked-in CRC table is the generator's output and both are right",
 "The CRC table generator's output equals the table used by the library, and every one of its 8 x 256 entries equals the value defined by the polynomial.",
 ["configurations"], "all 2048 table entries", "A wrong table entry used by both sides still round-trips.",
 ["src/tools/gen_crc32table.c", CRCT], [("table generation", "src/tools/gen_crc32table.c")])

# ------------------------------------------------------------------ ports
prop("A01", "AIX accelerator interface: every chunk is passed on exactly",
 "A single call of the AIX interface hands exactly the caller's buffers and lengths to the accelerator and returns its result and length; a chunked call does so for every chunk that is not marked as skipped, in its own slot of the input and output, leaves skipped chunks untouched, continues after chunks that do not fit, and returns the first other error; the published record's preferred alignment satisfies the required one.",
 ["inputs", "fault_sequences"], "every combination of chunk counts, strides, lengths, skipped chunks and accelerator results", "The AIX interface is only built on AIX.",
 ["src/aix/aix.c", "src/common/trivial_chunked.h"], [("accelerator calls", "src/aix/aix.c"), ("chunk loop", "src/common/trivial_chunked.h")])
prop("K01", "The CUDA kernel decodes every well-formed chunk in its own slot",
 "For every well-formed stream (no SHORT_DATA) of a chunk of at most 1024 bytes, any number of chunks (beyond 2^24, too), and any grid and block size that covers them, the CUDA kernel writes exactly the bytes prescribed by the format to that chunk's output slot and nothing anywhere else, reading only inside the chunk's input slot, in both build modes (the relaxed one with absolute indexes).",
 ["inputs", "programs", "configurations"], "every token sequence, chunk position and launch shape", "The CUDA kernel is not built or tested without a GPU.",
 ["src/cuda/842_decompress.cu"], [("kernel", "src/cuda/842_decompress.cu")])
prop("L01", "The HLS tokenizer yields exactly the stream's tokens",
 "For every sequence of 128-bit transfers the HLS module emits exactly the tokens of the stream they carry (opcode and operands), the END token last and marked as the last; it consumes a well-formed stream as a whole, never reads beyond the last transfer, and ends a truncated stream with END.",
 ["inputs"], "every token sequence at every bit position of a transfer, every truncation", "The HLS module is not built or tested without the HLS tools.",
 ["src/hls/842_decomp.cpp"], [("tokenizer", "src/hls/842_decomp.cpp")])

# ------------------------------------------------------------------ samples
prop("P01", "The sample programs report success exactly for a verified round trip",
 "A sample program (serial, optimized, cryptodev, both stream variants, OpenCL in its three input formats), run on a non-empty file or on its built-in data, exits with status 0 if nothing it calls fails: it then has compressed and decompressed every chunk of the zero-padded file exactly once (a chunk that does not become smaller may stay uncompressed when there are several chunks). It exits with another status, without crashing or hanging, whenever opening, measuring or reading the file, an allocation, the compression or decompression of any chunk (other than a chunk that does not become smaller, as above), or an OpenCL call fails, or when any decompressed byte or length differs. It frees what it allocated, once, closes the file, and writes only inside its allocations.",
 ["inputs", "fault_sequences"], "every file length around the chunk, batch and block limits, every chunk and every call that can fail", "The samples are built but run by no test.",
 ["sample/compdecomp_driver.c", "sample/compdecomp.c", "sample/compdecomp_streams.cpp", "sample/compdecomp_cl.cpp"], [("file handling", "sample/compdecomp_driver.c"), ("benchmarks", "sample/compdecomp.c compress_benchmark_core")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
