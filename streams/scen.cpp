// Scenarios: the real compression/decompression streams, latch and barrier driven by one controlling thread,
// with a small codec standing in for the 842 implementation (its outcome per chunk is chosen by the scenario).
#include "mcrt.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>
#include <sys/mman.h>
#include <sys/sysinfo.h>
#include <numa.h>
#include <pthread.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <system_error>

using namespace lib842::stream;
using lib842::detail::barrier;
using lib842::detail::latch;

extern "C" char __data_start[], _end[];
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
static NullBuf nullbuf;
static std::ostream nullos(&nullbuf);

enum { L_BLOCK, L_FIN, L_DEC, L_ERR, L_CMP, L_STOP };
enum Kind { COMP, EXACT, OVER, FULL, NOSPC, FAIL, GAP, RAW, BADRET, BADCHUNK, BADSIZE, FAILFULL, FAILALL, BADRETFULL, BADCHUNKFULL, BADALL, NKINDS };
static const size_t EV_FIN = 0, EV_ERR = 4, EV_BLK = 8; // EV_FIN + op, EV_BLK + block

struct Ctl {
	int kind[64 * 16];      // per chunk
	int op = 0;             // current operation (written only while no operation runs)
	bool destroyed = false;
	int nblocks = 0;
	int threads = 1;
};
static Ctl *G;
static uint8_t *S() { return mc_region(0); }
static uint8_t *D() { return mc_region(1); }

static const size_t ALIGN = 64; // what the implementation requires
static size_t csize(int kind, long chunk) {
	switch (kind) {
	case COMP: return 24 + (chunk * 37) % 1000;
	case EXACT: return COMPRESSIBLE_THRESHOLD;
	case OVER: return COMPRESSIBLE_THRESHOLD + 1;
	case FULL: return CHUNK_SIZE;
	default: return 7;
	}
}
static void put_tag(uint8_t *p, uint64_t a, uint64_t b) { memcpy(p, &a, 8); memcpy(p + 8, &b, 8); }
static bool has_tag(const uint8_t *p, uint64_t a, uint64_t b) { uint64_t x, y; memcpy(&x, p, 8); memcpy(&y, p + 8, 8); return x == a && y == b; }
static const uint64_t SRC = 0x5352435f00000000ull, CMP = 0x434d505f00000000ull, DST = 0x4453545f00000000ull, UNT = 0x554e545f00000000ull;

// ------------------------------------------------------------------ codec
static int c_compress_one(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	long chunk = (in - S()) / (long)CHUNK_SIZE;
	if (in < S() || (in - S()) % CHUNK_SIZE || chunk >= G->nblocks * 16L) mc_fail("the implementation was asked to compress data outside the input");
	if (ilen != CHUNK_SIZE) mc_fail("the implementation was given %zu bytes for a chunk", ilen);
	if ((uintptr_t)out % ALIGN) mc_fail("the output buffer of a chunk is not aligned as required");
	if (!has_tag(in, SRC + chunk, G->op)) mc_fail("the implementation was given wrong source data");
	int k = G->kind[chunk];
	size_t n = csize(k, chunk);
	if (k == FAIL) { *olen = 0; return -EIO; }
	if (k == FAILFULL) { put_tag(out, CMP + chunk, 7); *olen = 100; return -EIO; }
	if (k == NOSPC) { *olen = 0; return -ENOSPC; }
	if (n > *olen) mc_fail("the output room for a chunk is only %zu bytes", *olen);
	put_tag(out, CMP + chunk, n);
	*olen = n;
	return 0;
}
static int c_compress(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	int ret = 0;
	if (G->op < 4 && in >= S() && (in - S()) % BLOCK_SIZE == 0) mc_log_end(mc_log(L_CMP, (in - S()) / BLOCK_SIZE, G->op, 0, 0));
	for (size_t i = 0; i < n; i++) if (long c = (in + i * istride - S()) / (long)CHUNK_SIZE; c >= 0 && c < G->nblocks * 16L && G->kind[c] == FAILALL) { for (size_t k = 0; k < n; k++) rets[k] = 0; return -EIO; } // as when a request as a whole is rejected
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		rets[i] = c_compress_one(in + i * istride, ilens[i], out + i * ostride, &olens[i]);
		if (ret == 0 && rets[i] != 0 && rets[i] != -ENOSPC) ret = rets[i];
	}
	return ret;
}
static int c_decompress_one(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	uint64_t t, n; memcpy(&t, in, 8); memcpy(&n, in + 8, 8);
	long chunk = t - CMP;
	if (chunk < 0 || chunk >= G->nblocks * 16L) mc_fail("the implementation was asked to decompress something that is no chunk");
	if (n != ilen) mc_fail("the implementation was given %zu bytes for a compressed chunk of %zu", ilen, (size_t)n);
	if (out != D() + chunk * CHUNK_SIZE) mc_fail("chunk %ld is decompressed to offset %ld", chunk, (long)(out - D()));
	if (*olen < CHUNK_SIZE) mc_fail("only %zu bytes of room for a decompressed chunk", *olen);
	int k = G->kind[chunk];
	int e = mc_log(L_DEC, chunk, G->op, 0, 0);
	int ret = 0;
	if (k == BADRET || k == BADRETFULL) { *olen = k == BADRET ? 0 : CHUNK_SIZE; ret = -EINVAL; }
	else if (k == BADCHUNK || k == BADCHUNKFULL) { *olen = k == BADCHUNK ? 0 : CHUNK_SIZE; ret = -ENOSPC; }
	else if (k == BADSIZE) { put_tag(out, DST + chunk, G->op); *olen = 16; }
	else { put_tag(out, DST + chunk, G->op); *olen = CHUNK_SIZE; }
	mc_log_end(e);
	if (chunk % 16 == 0) mc_event_set(EV_BLK + (G->op & 1) * 16 + chunk / 16);
	return ret;
}
static int c_decompress(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	int ret = 0;
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		if (in == nullptr) mc_fail("the implementation was asked to decompress a chunk of a block without chunk buffer");
		if (uint64_t t; memcpy(&t, in + i * istride, 8), t - CMP < G->nblocks * 16u && G->kind[t - CMP] == BADALL) { mc_log_end(mc_log(L_DEC, t - CMP, G->op, 0, 0)); for (size_t k = 0; k < n; k++) if (ilens[k] != SIZE_MAX) { rets[k] = 0; olens[k] = CHUNK_SIZE; } return -EIO; }
		rets[i] = c_decompress_one(in + i * istride, ilens[i], out + i * ostride, &olens[i]);
		if (ret == 0 && rets[i] != 0 && rets[i] != -ENOSPC) ret = rets[i];
	}
	return ret;
}
static const lib842_implementation impl = {c_compress_one, c_decompress_one, c_compress, c_decompress, ALIGN, 4096};

// error logger: records the report and signals an event
static std::ostream &err_log() { if (G->destroyed) mc_fail("error report after the stream was destroyed"); mc_log_end(mc_log(L_ERR, G->op, 0, 0, 0)); mc_event_set(EV_ERR + G->op); return nullos; }
static std::ostream &dbg_log() { return nullos; }

static void init(int nblocks, int threads) { G = new Ctl; G->nblocks = nblocks; G->threads = threads; for (int i = 0; i < 64 * 16; i++) G->kind[i] = COMP; }
static void fini() { delete G; G = nullptr; }

// After a stop (cancellation, reported failure) each worker starts at most one more block: it may already have taken it.
static void stopped(int op) { mc_log_end(mc_log(L_STOP, 0, op, 0, 0)); }
static void check_stop(int op) {
	int n = mc_log_count(), after = 0; bool stop = false; bool seen[64] = {};
	for (int i = 0; i < n; i++) {
		const mc_entry *e = mc_log_get(i);
		if (e->b != op) continue;
		if (e->kind == L_STOP || (e->kind == L_BLOCK && e->a < 0)) stop = true;
		if (e->kind == L_CMP) after += stop;
		if (e->kind == L_DEC && !seen[e->a / 16]) { seen[e->a / 16] = true; after += stop; }
	}
	if (after > G->threads) mc_fail("%d blocks were started by %d workers after operation %d had been stopped", after, G->threads, op);
}

// ------------------------------------------------------------------ compression
static void prepare_source() { for (int i = 0; i < G->nblocks * 16; i++) put_tag(S() + (size_t)i * CHUNK_SIZE, SRC + i, G->op); }

// what the user's block callback checks about every block
static void check_comp_block(const Block &b) {
	if (G->destroyed) mc_fail("block callback after the stream was destroyed");
	if (b.offset == SIZE_MAX) return;
	if (b.offset % BLOCK_SIZE || b.offset / BLOCK_SIZE >= (size_t)G->nblocks) mc_fail("a block at offset %zu was delivered", b.offset);
	if (b.source != S() + b.offset) mc_fail("the block at offset %zu has a wrong source pointer", b.offset);
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		long c = b.offset / CHUNK_SIZE + i; int k = G->kind[c];
		bool compressed = (k == COMP || k == EXACT) && !(mc_fault_fired() && b.sizes[i] == CHUNK_SIZE); // for want of memory it may stay uncompressed
		size_t want = compressed ? csize(k, c) : CHUNK_SIZE;
		if (b.sizes[i] != want) mc_fail("chunk %zu of the block at offset %zu has size %zu instead of %zu", i, b.offset, b.sizes[i], want);
		if (compressed) {
			if (!b.get_chunk_buffer()) mc_fail("the block at offset %zu has compressed chunks but no buffer", b.offset);
			if (!has_tag(b.get_chunk_buffer() + i * b.chunk_padding, CMP + c, want)) mc_fail("chunk %zu of the block at offset %zu has wrong contents", i, b.offset);
			if (b.get_chunk(i) != b.get_chunk_buffer() + i * b.chunk_padding) mc_fail("get_chunk(%zu) of the block at offset %zu is wrong", i, b.offset);
		} else if (b.get_chunk(i) != S() + (size_t)c * CHUNK_SIZE) mc_fail("get_chunk(%zu) of the block at offset %zu does not refer to the source", i, b.offset);
	}
}
static void comp_callback(Block &&b, int op) {
	if (op != G->op) mc_fail("a block of operation %d is delivered during operation %d", op, G->op);
	int e = mc_log(L_BLOCK, b.offset == SIZE_MAX ? -1 : (long)(b.offset / BLOCK_SIZE), op, 0, 0);
	check_comp_block(b);
	if (b.offset != SIZE_MAX) mc_event_set(EV_BLK + op * 16 + b.offset / BLOCK_SIZE); else mc_event_set(EV_BLK - 1);
	Block mine = std::move(b);
	mc_log_end(e);
}
static void fin_callback(bool success, int op) {
	if (G->destroyed) mc_fail("finalize callback after the stream was destroyed");
	if (op != G->op) mc_fail("finalize callback of operation %d during operation %d", op, G->op);
	mc_log_end(mc_log(L_FIN, success, op, 0, 0));
	mc_event_set(EV_FIN + op);
}
enum Mode { OK, FAILING, CANCEL, EMPTY };
// oracle over the happens-before order of all callbacks of one operation
static void check_comp_log(int op, int mode, int nblocks, unsigned failmask, int epoch, bool destroyed) {
	int fins = 0, flagged = 0; const mc_entry *fin = nullptr; int cnt[16] = {};
	int n = mc_log_count();
	for (int i = 0; i < n; i++) {
		const mc_entry *e = mc_log_get(i);
		if (e->b != op && (e->kind == L_BLOCK || e->kind == L_FIN)) continue;
		if (e->kind == L_FIN) { fins++; fin = e; }
		if (e->kind == L_BLOCK) { if (e->a < 0) flagged++; else if (++cnt[e->a] > 1) mc_fail("operation %d delivered block %ld twice", op, e->a); if (!e->ended) mc_fail("a block callback never returned"); }
	}
	if (!destroyed && fins != 1) mc_fail("the finalize callback of operation %d ran %d times", op, fins);
	if (fins > 1) mc_fail("the finalize callback of operation %d ran %d times", op, fins);
	if (fin) for (int i = 0; i < n; i++) { const mc_entry *e = mc_log_get(i); if (e->kind == L_BLOCK && e->b == op && !mc_hb(&e->end, &fin->begin)) mc_fail("the finalize callback of operation %d is not ordered after the block callback of block %ld", op, e->a); }
	check_stop(op);
	int delivered = 0; for (int b = 0; b < nblocks; b++) { delivered += cnt[b]; if (cnt[b] && (failmask >> b & 1)) mc_fail("block %d failed but was delivered as valid", b); }
	if (mode == OK || mode == EMPTY) {
		if (!destroyed && delivered != nblocks) mc_fail("operation %d delivered %d of %d blocks", op, delivered, nblocks);
		if (flagged) mc_fail("operation %d flagged %d blocks as failed", op, flagged);
		if (fin && !fin->a) mc_fail("operation %d reported failure", op);
	} else if (mode == FAILING) {
		int bad = __builtin_popcount(failmask);
		if (flagged > bad) mc_fail("operation %d flagged %d blocks, only %d failed", op, flagged, bad);
		if (!destroyed && flagged < 1) mc_fail("operation %d did not flag any block as failed", op);
		if (fin && fin->a) mc_fail("operation %d reported success although a block failed", op);
		if (delivered + flagged > nblocks) mc_fail("operation %d delivered too many blocks", op);
	} else if (mode == CANCEL) {
		if (flagged) mc_fail("operation %d flagged %d blocks as failed", op, flagged);
		if (fin && !fin->a) mc_fail("the cancelled operation %d reported failure", op);
	}
	if (epoch && !destroyed) for (int j = 0; j < n; j++) {
		const mc_entry *e = mc_log_get(j);
		if (e->kind != L_BLOCK || e->b != op || e->a < 0) continue;
		int ep = e->a / epoch, before = 0;
		for (int i = 0; i < n; i++) { const mc_entry *f = mc_log_get(i); if (f->kind == L_BLOCK && f->b == op && (f->a < 0 || f->a / epoch < ep) && mc_hb(&f->end, &e->begin)) before++; }
		if (before < ep * epoch) mc_fail("block %ld of epoch %d was delivered although only %d of the %d blocks of earlier epochs are known to have been delivered", e->a, ep, before, ep * epoch);
	}
}
static void comp_start(DataCompressionStream &s, int op, int nblocks, size_t extra) {
	prepare_source();
	s.start(S(), nblocks * BLOCK_SIZE + extra, [op](Block &&b) { comp_callback(std::move(b), op); });
}
static std::unique_ptr<DataCompressionStream> new_comp() { return std::unique_ptr<DataCompressionStream>(new DataCompressionStream(impl, G->threads, thread_policy::use_defaults, err_log, dbg_log)); }
static void apply_mode(int mode, unsigned failmask, int nblocks, int how = FAIL) {
	for (int b = 0; b < nblocks; b++) for (int i = 0; i < 16; i++) G->kind[b * 16 + i] = COMP;
	if (mode == FAILING) for (int b = 0; b < nblocks; b++) if (failmask >> b & 1) G->kind[b * 16 + (b * 5) % 16] = how;
}

// args: threads, blocks, wait_ready, chunk kinds (0 all compressible, 1 explored), trailing bytes, call finalize only after every
// block has been delivered
static void sc_comp(const long *a) {
	init(a[1], a[0]);
	if (a[3] == 1) { // the kind of three chunks and the kind of all the others are explored
		static const int ks[] = {COMP, EXACT, OVER, FULL, NOSPC};
		int rest = mc_choose(2) ? NOSPC : COMP;
		for (int i = 0; i < a[1] * 16; i++) G->kind[i] = rest;
		G->kind[0] = ks[mc_choose(5)]; G->kind[15] = ks[mc_choose(5)];
		if (a[1] > 1) G->kind[16 + 7] = ks[mc_choose(5)];
	} else if (a[3] == 2) { for (int b = 0; b < a[1]; b++) { G->kind[b * 16 + 1] = OVER; G->kind[b * 16 + 2] = NOSPC; G->kind[b * 16 + 3] = EXACT; } }
	{
		auto s = new_comp();
		if (a[2]) s->wait_until_ready();
		comp_start(*s, 0, a[1], a[4]);
		if (a[5]) for (int b = 0; b < a[1]; b++) mc_event_wait(EV_BLK + b);
		s->finalize(false, [](bool ok) { fin_callback(ok, 0); });
		mc_event_wait(EV_FIN);
		s.reset();
	}
	G->destroyed = true;
	check_comp_log(0, a[1] ? OK : EMPTY, a[1], 0, 0, false);
	mc_nontrivial(("comp" + std::to_string(mc_log_count())).c_str());
	fini();
}
// args: threads, blocks, epoch in blocks, mode, fail mask, cancel after block (-1: at once), destroy instead of waiting (2: do not
// destroy, and call finalize only after every block has been delivered)
static void sc_epoch(const long *a) {
	init(a[1], a[0]);
	apply_mode(a[3], a[4], a[1]);
	{
		auto s = new_comp();
		s->set_offset_sync_epoch_multiple(a[2] * BLOCK_SIZE);
		comp_start(*s, 0, a[1], a[7]);
		if (a[6] == 1) { if (a[5] >= 0 && a[5] < a[1]) mc_event_wait(EV_BLK + a[5]); s.reset(); }
		else {
			if (a[3] == CANCEL && a[5] >= 0) mc_event_wait(EV_BLK + a[5]);
			if (a[6] == 2) for (int b = 0; b < a[1]; b++) mc_event_wait(EV_BLK + b);
			s->finalize(a[3] == CANCEL, [](bool ok) { fin_callback(ok, 0); });
			if (a[3] == CANCEL) stopped(0);
			mc_event_wait(EV_FIN);
		}
	}
	G->destroyed = true;
	check_comp_log(0, a[3], a[1], a[4], a[2], a[6] == 1);
	fini();
}
// args: threads, blocks, fail mask, blocks of a following operation (0: none), its fail mask, how a block fails (0: FAIL)
static void sc_fail(const long *a) {
	init(std::max(a[1], a[3]), a[0]);
	{
		auto s = new_comp();
		apply_mode(FAILING, a[2], a[1], a[5] ? a[5] : FAIL);
		comp_start(*s, 0, a[1], 0);
		s->finalize(false, [](bool ok) { fin_callback(ok, 0); });
		mc_event_wait(EV_FIN);
		if (a[3]) {
			G->op = 1; apply_mode(a[4] ? FAILING : OK, a[4], a[3]);
			comp_start(*s, 1, a[3], 0);
			s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
			mc_event_wait(EV_FIN + 1);
		}
	}
	G->destroyed = true;
	check_comp_log(0, FAILING, a[1], a[2], 0, false);
	if (a[3]) check_comp_log(1, a[4] ? FAILING : OK, a[3], a[4], 0, false);
	fini();
}
// args: threads, blocks, cancel after block (-1: at once), blocks of a following operation, epoch, fail mask
static void sc_cancel(const long *a) {
	init(std::max(a[1], a[3]), a[0]);
	{
		auto s = new_comp();
		if (a[4]) s->set_offset_sync_epoch_multiple(a[4] * BLOCK_SIZE);
		comp_start(*s, 0, a[1], 0);
		if (a[2] >= 0) mc_event_wait(EV_BLK + a[2]);
		s->finalize(true, [](bool ok) { fin_callback(ok, 0); });
		stopped(0);
		mc_event_wait(EV_FIN);
		if (a[3]) {
			G->op = 1; apply_mode(OK, 0, a[3]);
			comp_start(*s, 1, a[3], 0);
			s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
			mc_event_wait(EV_FIN + 1);
		}
	}
	G->destroyed = true;
	check_comp_log(0, CANCEL, a[1], 0, a[4], false);
	if (a[3]) check_comp_log(1, OK, a[3], 0, a[4], false);
	fini();
}
// consecutive operations; args: threads, blocks per operation, number of operations, modes (base 4), where the next
// operation is started (0 controlling thread, 1 finalize callback)
struct CSeq { DataCompressionStream *s; long a[8]; int modes[4]; };
static void comp_op(CSeq *q, int op) {
	int mode = q->modes[op]; int nb = mode == EMPTY ? 0 : q->a[1];
	G->op = op; apply_mode(mode, 1, q->a[1]);
	comp_start(*q->s, op, nb, 0);
	q->s->finalize(mode == CANCEL, [q, op](bool ok) {
		if (op != G->op) mc_fail("finalize callback of operation %d during operation %d", op, G->op);
		mc_log_end(mc_log(L_FIN, ok, op, 0, 0));
		if (q->a[4] && op + 1 < q->a[2]) comp_op(q, op + 1);
		mc_event_set(EV_FIN + op);
	});
}
static void sc_comp_seq(const long *a) {
	init(a[1], a[0]);
	CSeq *q = new CSeq; memcpy(q->a, a, sizeof q->a); long m = a[3]; for (int i = 0; i < 4; i++) { q->modes[i] = m % 4; m /= 4; }
	{
		auto s = new_comp(); q->s = s.get();
		if (a[4]) { comp_op(q, 0); mc_event_wait(EV_FIN + a[2] - 1); }
		else for (int op = 0; op < a[2]; op++) { comp_op(q, op); mc_event_wait(EV_FIN + op); }
	}
	G->destroyed = true;
	for (int op = 0; op < a[2]; op++) check_comp_log(op, q->modes[op], q->modes[op] == EMPTY ? 0 : a[1], q->modes[op] == FAILING ? 1 : 0, 0, false);
	delete q; fini();
}
// destruction; args: threads, blocks, point (0 unused, 1 after start, 2 finalizing, 3 cancelling, 4 after the finalize
// callback began, 5 failing), wait for block k first (-1: no), wait_until_ready first, previous complete operation, epoch
static void sc_comp_destroy(const long *a) {
	init(a[1], a[0]);
	int op = 0;
	{
		auto s = new_comp();
		if (a[6]) s->set_offset_sync_epoch_multiple(a[6] * BLOCK_SIZE);
		if (a[4]) s->wait_until_ready();
		if (a[5]) { comp_start(*s, 0, a[1], 0); s->finalize(false, [](bool ok) { fin_callback(ok, 0); }); mc_event_wait(EV_FIN); op = 1; G->op = 1; }
		if (a[2] == 5) apply_mode(FAILING, 1, a[1]);
		if (a[2] >= 1) comp_start(*s, op, a[1], 0);
		if (a[3] >= 0) mc_event_wait(EV_BLK + op * 16 + a[3]);
		if (a[2] >= 2) s->finalize(a[2] == 3, [op](bool ok) { fin_callback(ok, op); });
		if (a[2] == 4) mc_event_wait(EV_FIN + op);
		s.reset();
		if (mc_live_threads()) mc_fail("%d threads still exist after the stream was destroyed", mc_live_threads());
	}
	G->destroyed = true;
	check_comp_log(op, a[2] == 5 ? FAILING : a[2] == 3 ? CANCEL : OK, a[1], a[2] == 5 ? 1 : 0, 0, true);
	fini();
}

// The epoch size is set several times; the last one before an operation counts. args: threads, blocks, epoch sizes in blocks (0: none,
// -1: not set) set before the first operation (2), before the second one (1)
static void sc_epoch_set(const long *a) {
	init(a[1], a[0]);
	long ep[2] = {0, 0};
	{
		auto s = new_comp();
		for (int op = 0; op < 2; op++) {
			G->op = op;
			for (int k = op ? 4 : 2; k < (op ? 5 : 4); k++) if (a[k] >= 0) { s->set_offset_sync_epoch_multiple(a[k] * BLOCK_SIZE); ep[op] = a[k]; }
			if (op && a[4] < 0) ep[1] = ep[0];
			comp_start(*s, op, a[1], 0);
			s->finalize(false, [op](bool ok) { fin_callback(ok, op); });
			mc_event_wait(EV_FIN + op);
			if (a[4] == -2) break;
		}
	}
	G->destroyed = true;
	for (int op = 0; op < (a[4] == -2 ? 1 : 2); op++) check_comp_log(op, OK, a[1], 0, ep[op], false);
	fini();
}
// A huge input, whose operation is stopped during its first block. args: log2 of the size, how (0: cancelled, 1: the block fails)
static void sc_huge(const long *a) {
	init(4, 1);
	apply_mode(a[1] ? FAILING : OK, 1, 4);
	{
		auto s = new_comp();
		prepare_source();
		s->start(S(), ((size_t)1 << a[0]) + 4 * BLOCK_SIZE, [a](Block &&b) { bool first = b.offset == 0; comp_callback(std::move(b), 0); if (first && !a[1]) mc_event_wait(EV_ERR); });
		mc_event_wait(EV_BLK - (a[1] ? 1 : 0));
		s->finalize(!a[1], [](bool ok) { fin_callback(ok, 0); });
		stopped(0); mc_event_set(EV_ERR);
		mc_event_wait(EV_FIN);
	}
	G->destroyed = true;
	check_comp_log(0, a[1] ? FAILING : CANCEL, 4, a[1] ? 1 : 0, 0, false);
	fini();
}
// An implementation whose required alignment the streams cannot provide is rejected. args: threads, stream, required alignment, rejected
static void sc_align(const long *a) {
	init(1, a[0]);
	lib842_implementation x = {c_compress_one, c_decompress_one, c_compress, c_decompress, (size_t)a[2], 4096};
	bool thrown = false;
	try {
		if (a[1]) delete new DataDecompressionStream(x, a[0], thread_policy::use_defaults, [&]() -> std::ostream & { return nullos; }, dbg_log);
		else delete new DataCompressionStream(x, a[0], thread_policy::use_defaults, [&]() -> std::ostream & { return nullos; }, dbg_log);
	} catch (const std::exception &) { thrown = true; }
	if (thrown != (a[3] != 0)) mc_fail("an implementation that requires an alignment of %ld is %s", a[2], thrown ? "rejected" : "accepted");
	if (mc_live_threads()) mc_fail("%d threads exist", mc_live_threads());
	fini();
}

// ------------------------------------------------------------------ decompression
static Block make_block(int b, size_t padding) {
	Block k; k.offset = (size_t)b * BLOCK_SIZE; k.chunk_padding = padding; k.source = nullptr;
	bool any = false, raw = false;
	for (int i = 0; i < 16; i++) {
		int kd = G->kind[b * 16 + i];
		k.sizes[i] = kd == GAP ? 0 : kd == RAW ? CHUNK_SIZE : kd == EXACT ? COMPRESSIBLE_THRESHOLD : 24 + i;
		any |= kd != GAP && kd != RAW; raw |= kd == RAW;
	}
	if (raw) k.source = S() + k.offset;
	if (any) {
		uint8_t *buf = k.allocate_buffer(4096, padding);
		for (int i = 0; i < 16; i++) if (k.sizes[i] && k.sizes[i] != CHUNK_SIZE) put_tag(buf + (size_t)i * padding, CMP + b * 16 + i, k.sizes[i]);
	}
	return k;
}
static void prepare_dest() {
	for (int i = 0; i < G->nblocks * 16; i++) {
		uint8_t *d = D() + (size_t)i * CHUNK_SIZE, *s = S() + (size_t)i * CHUNK_SIZE;
		put_tag(d, UNT + i, G->op); put_tag(d + CHUNK_SIZE - 16, UNT + i, G->op);
		if (G->kind[i] == RAW) { put_tag(s, SRC + i, G->op); put_tag(s + CHUNK_SIZE - 16, SRC + i, ~(uint64_t)G->op); }
	}
	put_tag(D() + G->nblocks * BLOCK_SIZE, UNT, 77);
}
// contents of the destination when the operation is over; pushed: blocks whose push succeeded
static void check_dest(unsigned pushed, bool complete) {
	for (int i = 0; i < G->nblocks * 16; i++) {
		const uint8_t *d = D() + (size_t)i * CHUNK_SIZE, *e = d + CHUNK_SIZE - 16; int k = G->kind[i];
		bool untouched = has_tag(d, UNT + i, G->op) && has_tag(e, UNT + i, G->op);
		if (k == GAP || !(pushed >> (i / 16) & 1)) { if (!untouched) mc_fail("the destination of the absent chunk %d was written", i); continue; }
		bool done = k == RAW ? has_tag(d, SRC + i, G->op) && has_tag(e, SRC + i, ~(uint64_t)G->op) : has_tag(d, DST + i, G->op) && has_tag(e, UNT + i, G->op);
		if (complete ? !done : !done && !untouched) { if (complete || k < BADRET) mc_fail("the destination of chunk %d does not hold its data", i); }
	}
	if (!has_tag(D() + G->nblocks * BLOCK_SIZE, UNT, 77)) mc_fail("data was written behind the destination");
}
static void check_dec_log(int op, bool destroyed, int success) { // success: 1, 0 or -1 (either)
	int fins = 0; const mc_entry *fin = nullptr; int n = mc_log_count(); int cnt[64 * 16] = {};
	for (int i = 0; i < n; i++) {
		const mc_entry *e = mc_log_get(i);
		if (e->kind == L_FIN && e->b == op) { fins++; fin = e; }
		if (e->kind == L_DEC && e->b == op && ++cnt[e->a] > 1) mc_fail("chunk %ld was decompressed twice", e->a);
	}
	if (fins > 1 || (!destroyed && fins != 1)) mc_fail("the finalize callback of operation %d ran %d times", op, fins);
	check_stop(op);
	if (!fin) return;
	if (success >= 0 && fin->a != success) mc_fail("operation %d reported %s", op, fin->a ? "success" : "failure");
	for (int i = 0; i < n; i++) { const mc_entry *e = mc_log_get(i); if (e->kind == L_DEC && e->b == op && !mc_hb(&e->end, &fin->begin)) mc_fail("the finalize callback of operation %d is not ordered after the decompression of chunk %ld", op, e->a); }
}
static std::unique_ptr<DataDecompressionStream> new_dec() { return std::unique_ptr<DataDecompressionStream>(new DataDecompressionStream(impl, G->threads, thread_policy::use_defaults, err_log, dbg_log)); }
static void dec_kinds(int pattern) {
	for (int b = 0; b < G->nblocks; b++) for (int i = 0; i < 16; i++) {
		int k = COMP;
		switch (pattern) {
		case 0: k = i < 2 ? COMP : GAP; break;                                    // few chunks
		case 1: k = COMP; break;
		case 2: k = i == 3 ? RAW : i == 15 ? EXACT : i == 7 ? GAP : COMP; break;
		case 3: k = b == 0 ? (i == 0 ? RAW : GAP) : (i == 15 ? RAW : i == 1 ? COMP : GAP); break; // block without buffer
		case 4: k = GAP; break;
		}
		G->kind[b * 16 + i] = k;
	}
}
// args: threads, blocks, kinds pattern (9: explored), order (0 ascending, 1 descending), wait_ready, padding, call finalize only after
// chunk 0 of every block has been decompressed
static void sc_dec(const long *a) {
	init(a[1], a[0]);
	if (a[2] == 9) { dec_kinds(4); static const int ks[] = {COMP, RAW, GAP, EXACT}; for (int i : {0, 1, 15}) G->kind[i] = ks[mc_choose(4)]; if (a[1] > 1) for (int i : {0, 15}) G->kind[16 + i] = ks[mc_choose(4)]; }
	else dec_kinds(a[2]);
	size_t pad = a[5] ? a[5] : CHUNK_SIZE;
	{
		auto s = new_dec();
		if (a[4]) s->wait_until_ready();
		prepare_dest();
		s->start(D());
		for (int i = 0; i < a[1]; i++) { int b = a[3] ? a[1] - 1 - i : i; if (!s->push_block(make_block(b, pad))) mc_fail("block %d was refused", b); }
		if (a[6]) for (int b = 0; b < a[1]; b++) mc_event_wait(EV_BLK + b);
		s->finalize(false, [](bool ok) { fin_callback(ok, 0); if (ok) check_dest(~0u, true); });
		mc_event_wait(EV_FIN);
		check_dest(~0u, true);
	}
	G->destroyed = true;
	check_dec_log(0, false, 1);
	check_dest(~0u, true);
	mc_nontrivial(("dec" + std::to_string(mc_log_count())).c_str());
	fini();
}
// args: threads, blocks, failing block, kind of failure, chunk, wait for the report before the next push, following operation, second failing block+1
static void sc_dec_fail(const long *a) {
	init(a[1], a[0]);
	dec_kinds(0);
	G->kind[a[2] * 16 + a[4]] = a[3];
	if (a[7]) G->kind[(a[7] - 1) * 16] = a[3];
	unsigned pushed = 0;
	{
		auto s = new_dec();
		prepare_dest();
		s->start(D());
		bool refused = false;
		for (int b = 0; b < a[1]; b++) {
			if (a[5] && b == a[2] + 1) mc_event_wait(EV_ERR);
			bool ok = s->push_block(make_block(b, 4096));
			if (ok && refused) mc_fail("block %d was accepted after another one had been refused", b);
			if (ok && a[5] && b > a[2]) mc_fail("block %d was accepted after the failure had been reported", b);
			if (!ok && !refused) stopped(0);
			if (!ok && b <= a[2] && !a[7]) mc_fail("block %d was refused before any failure", b);
			refused |= !ok;
			if (ok) pushed |= 1u << b;
		}
		s->finalize(false, [](bool ok) { fin_callback(ok, 0); });
		mc_event_wait(EV_FIN);
		check_dest(pushed, false);
		if (a[6]) {
			G->op = 1; dec_kinds(0); prepare_dest();
			s->start(D());
			for (int b = 0; b < a[6]; b++) if (!s->push_block(make_block(b, 4096))) mc_fail("block %d of the next operation was refused", b);
			s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
			mc_event_wait(EV_FIN + 1);
			check_dest((1u << a[6]) - 1, true);
		}
	}
	G->destroyed = true;
	check_dec_log(0, false, 0);
	if (a[6]) check_dec_log(1, false, 1);
	fini();
}
// args: threads, blocks, following operation's blocks
static void sc_dec_cancel(const long *a) {
	init(std::max(a[1], a[2]), a[0]);
	dec_kinds(0);
	{
		auto s = new_dec();
		prepare_dest();
		s->start(D());
		for (int b = 0; b < a[1]; b++) if (!s->push_block(make_block(b, 4096))) mc_fail("block %d was refused", b);
		s->finalize(true, [](bool ok) { fin_callback(ok, 0); });
		stopped(0);
		mc_event_wait(EV_FIN);
		check_dest((1u << a[1]) - 1, false);
		if (a[2]) {
			G->op = 1; prepare_dest(); // nothing of the cancelled operation may be written from now on
			s->start(D());
			unsigned m = 0;
			for (int b = 0; b < a[2]; b += 2) { m |= 1u << b; if (!s->push_block(make_block(b, 4096))) mc_fail("block %d of the next operation was refused", b); }
			s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
			mc_event_wait(EV_FIN + 1);
			check_dest(m, true);
		}
	}
	G->destroyed = true;
	check_dec_log(0, false, 1);
	if (a[2]) check_dec_log(1, false, 1);
	fini();
}
struct DSeq { DataDecompressionStream *s; long a[8]; int modes[4]; };
static void dec_op(DSeq *q, int op) {
	int mode = q->modes[op]; int nb = mode == EMPTY ? 0 : q->a[1];
	G->op = op; dec_kinds(0); if (mode == FAILING) G->kind[1] = BADRET;
	prepare_dest();
	q->s->start(D());
	for (int b = 0; b < nb; b++) { bool ok = q->s->push_block(make_block(b, 4096)); if (!ok && (mode != FAILING || b == 0)) mc_fail("block %d of operation %d was refused", b, op); }
	q->s->finalize(mode == CANCEL, [q, op, mode, nb](bool ok) {
		if (op != G->op) mc_fail("finalize callback of operation %d during operation %d", op, G->op);
		mc_log_end(mc_log(L_FIN, ok, op, 0, 0));
		if (ok) check_dest((1u << nb) - 1, mode != CANCEL);
		if (q->a[4] && op + 1 < q->a[2]) dec_op(q, op + 1);
		mc_event_set(EV_FIN + op);
	});
}
static void sc_dec_seq(const long *a) {
	init(a[1], a[0]);
	DSeq *q = new DSeq; memcpy(q->a, a, sizeof q->a); long m = a[3]; for (int i = 0; i < 4; i++) { q->modes[i] = m % 4; m /= 4; }
	{
		auto s = new_dec(); q->s = s.get();
		if (a[4]) { dec_op(q, 0); mc_event_wait(EV_FIN + a[2] - 1); }
		else for (int op = 0; op < a[2]; op++) { dec_op(q, op); mc_event_wait(EV_FIN + op); }
	}
	G->destroyed = true;
	for (int op = 0; op < a[2]; op++) check_dec_log(op, false, q->modes[op] != FAILING);
	delete q; fini();
}
// args: threads, blocks, point (0 unused, 1 after pushing, 2 finalizing, 3 cancelling, 4 finalize callback began, 5 failing), wait_ready, previous operation
static void sc_dec_destroy(const long *a) {
	init(a[1], a[0]);
	dec_kinds(0);
	int op = 0;
	{
		auto s = new_dec();
		if (a[3]) s->wait_until_ready();
		if (a[4]) { prepare_dest(); s->start(D()); s->push_block(make_block(0, 4096)); s->finalize(false, [](bool ok) { fin_callback(ok, 0); }); mc_event_wait(EV_FIN); op = 1; G->op = 1; }
		if (a[2] == 5) G->kind[0] = BADRET;
		prepare_dest();
		if (a[2] >= 1) { s->start(D()); for (int b = 0; b < a[1]; b++) s->push_block(make_block(b, 4096)); }
		if (a[2] >= 2) s->finalize(a[2] == 3, [op](bool ok) { fin_callback(ok, op); });
		if (a[2] == 4) mc_event_wait(EV_FIN + op);
		s.reset();
		if (mc_live_threads()) mc_fail("%d threads still exist after the stream was destroyed", mc_live_threads());
	}
	G->destroyed = true;
	check_dec_log(op, true, -1);
	fini();
}

// ------------------------------------------------------------------ readiness
// args: threads, stream (0 compression, 1 decompression), calls of wait_until_ready, operation (0 none, 1 before, 2 after the first call, 3 without any call)
static void ready_check(const char *w) { if (!mc_all_started()) mc_fail("wait_until_ready (%s) returned before every worker was running", w); }
static void sc_ready(const long *a) {
	init(1, a[0]);
	if (a[1] == 0) {
		auto s = new_comp();
		auto run = [&] { comp_start(*s, 0, 1, 0); s->finalize(false, [](bool ok) { fin_callback(ok, 0); }); };
		if (a[3] == 1 || a[3] == 3) run();
		for (int i = 0; i < a[2]; i++) { s->wait_until_ready(); ready_check("compression"); if (i == 0 && a[3] == 2) run(); }
		if (a[3]) mc_event_wait(EV_FIN);
		if (a[2]) { s->wait_until_ready(); ready_check("compression"); }
		s.reset();
		if (a[3]) check_comp_log(0, OK, 1, 0, 0, false);
	} else {
		auto s = new_dec();
		dec_kinds(0);
		auto run = [&] { prepare_dest(); s->start(D()); s->push_block(make_block(0, 4096)); s->finalize(false, [](bool ok) { fin_callback(ok, 0); }); };
		if (a[3] == 1 || a[3] == 3) run();
		for (int i = 0; i < a[2]; i++) { s->wait_until_ready(); ready_check("decompression"); if (i == 0 && a[3] == 2) run(); }
		if (a[3]) { mc_event_wait(EV_FIN); check_dest(1, true); }
		if (a[2]) { s->wait_until_ready(); ready_check("decompression"); }
		s.reset();
		if (a[3]) check_dec_log(0, false, 1);
	}
	fini();
}

// ------------------------------------------------------------------ latch and barrier
// args: count, counting threads, waiting threads
static void sc_latch(const long *a) {
	struct Sh { latch l; Sh(int n) : l(n) {} };
	Sh *sh = new Sh(a[0]);
	{
		std::vector<std::thread> t;
		int per = a[0] / a[1];
		for (int i = 0; i < a[1]; i++) t.emplace_back([sh, per] { for (int k = 0; k < per; k++) { mc_log_end(mc_log(L_DEC, 0, 0, 0, 0)); sh->l.count_down(); } });
		auto waiter = [sh] { int e = mc_log(L_FIN, 0, 0, 0, 0); sh->l.wait(); mc_log_end(e); sh->l.wait(); };
		for (int i = 1; i < a[2]; i++) t.emplace_back(waiter);
		if (a[2]) waiter();
		for (auto &x : t) x.join();
	}
	delete sh;
	int n = mc_log_count();
	for (int i = 0; i < n; i++) if (mc_log_get(i)->kind == L_FIN) for (int k = 0; k < n; k++) if (mc_log_get(k)->kind == L_DEC && !mc_hb(&mc_log_get(k)->end, &mc_log_get(i)->end)) mc_fail("latch::wait returned before a count_down");
}
// args: threads, rounds, interrupt (0 no, 1 concurrently, 2 threads missing)
static void sc_barrier(const long *a) {
	struct Sh { barrier b; Sh(int n) : b(n) {} };
	Sh *sh = new Sh(a[0]);
	int rounds = a[1];
	auto body = [sh, rounds](int who) { for (int r = 0; r < rounds; r++) { int e = mc_log(L_BLOCK, r, who, 0, 0); sh->b.arrive_and_wait(); mc_log_end(e); } };
	{
		std::vector<std::thread> t;
		int n = a[2] == 2 ? a[0] - 1 : a[0];
		for (int i = 1; i < n; i++) t.emplace_back(body, i);
		if (a[2]) { t.emplace_back(body, 0); sh->b.interrupt(); } else body(0);
		for (auto &x : t) x.join();
	}
	delete sh;
	int n = mc_log_count();
	if (!a[2]) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { auto *x = mc_log_get(i), *y = mc_log_get(k); if (x->a == y->a && !mc_hb(&x->begin, &y->end)) mc_fail("thread %ld left round %ld of the barrier before thread %ld had arrived", y->b, y->a, x->b); }
}

// ------------------------------------------------------------------ both streams over the real implementations
// chunk kinds per implementation: 0 zeros, 1 compressible text, 2 random, 3 compresses to exactly the threshold,
// 4 to the next possible size above it, 5 to exactly one chunk
static const int PK = 6;
static uint8_t *bank[2][PK]; static size_t bank_size[2][PK];
static const lib842_implementation *real_impl(int i) { return i ? get_optsw842_implementation() : get_sw842_implementation(); }
static void make_bank() {
	uint8_t *m = (uint8_t *)mmap(nullptr, 2 * PK * CHUNK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	static uint8_t out[2 * CHUNK_SIZE];
	static uint64_t rnd[CHUNK_SIZE / 8]; uint64_t z = 88172645463325252ull;
	for (auto &r : rnd) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; r = z; }
	for (int i = 0; i < 2; i++) {
		auto size = [&](const uint8_t *p) { size_t n = sizeof out; int r = real_impl(i)->compress(p, CHUNK_SIZE, out, &n); return r ? (size_t)0 : n; };
		for (int k = 0; k < PK; k++) bank[i][k] = m + (size_t)(i * PK + k) * CHUNK_SIZE;
		for (size_t j = 0; j < CHUNK_SIZE; j++) bank[i][1][j] = "the quick brown fox jumps over 842 lazy dogs\n"[(j * 7 + j / 91) % 45];
		memcpy(bank[i][2], rnd, CHUNK_SIZE);
		const size_t want[3] = {COMPRESSIBLE_THRESHOLD, COMPRESSIBLE_THRESHOLD + 8, CHUNK_SIZE};
		for (int t = 0; t < 3; t++) { // n random words, then zero words except m words that repeat one random half
			uint8_t *b = bank[i][3 + t]; bool found = false;
			for (int n = 7600; n > 7300 && !found; n--) {
				memset(b, 0, CHUNK_SIZE); memcpy(b, rnd, n * 8);
				if (n % 50 && size(b) + 64 < want[t]) continue;
				for (int x = 0; x < 40 && !found; x++) { for (int y = 0; y < x; y++) memcpy(b + (n + 1 + 2 * y) * 8, (uint8_t *)rnd + 3 + y * 2, 4); size_t s = size(b); if (s == want[t]) found = true; else if (s > want[t]) break; }
			}
			if (!found) bank[i][3 + t] = nullptr;
		}
		for (int k = 0; k < PK; k++) { if (!bank[i][k]) { fprintf(stdout, "no chunk of kind %d for implementation %d\n", k, i); fflush(stdout); _exit(90); } bank_size[i][k] = size(bank[i][k]); }
	}
}
// args: compression threads, implementation, blocks, decompression threads, kinds (0 explored in block 0; n>0: fixed pattern), direct (push from the block callback), other implementation decompresses
struct Pipe { std::vector<Block> blocks; std::mutex m; DataDecompressionStream *d; bool direct; int n = 0; };
static void sc_pipe(const long *a) {
	if (!bank[0][0]) mc_fail("no chunk bank");
	init(a[2], a[0]);
	int im = a[1], nb = a[2];
	for (int i = 0; i < nb * 16; i++) G->kind[i] = 0;
	if (a[4] == 0) { for (int i : {0, 6, 15}) G->kind[i] = mc_choose(PK); if (nb > 1) G->kind[16] = mc_choose(PK); }
	else for (int i = 0; i < nb * 16; i++) G->kind[i] = a[4] == 1 ? i % PK : a[4] == 2 ? 2 : (i / 16 == 0 ? 2 : i % 3);
	for (int i = 0; i < nb * 16; i++) memcpy(S() + (size_t)i * CHUNK_SIZE, bank[im][G->kind[i]], CHUNK_SIZE);
	memset(D(), 0xA5, nb * BLOCK_SIZE + 64);
	auto q = std::unique_ptr<Pipe>(new Pipe); q->direct = a[5];
	{
		auto c = std::unique_ptr<DataCompressionStream>(new DataCompressionStream(*real_impl(im), a[0], thread_policy::use_defaults, err_log, dbg_log));
		auto d = std::unique_ptr<DataDecompressionStream>(new DataDecompressionStream(*real_impl(a[6] ? 1 - im : im), a[3], thread_policy::use_defaults, err_log, dbg_log));
		q->d = d.get();
		d->start(D());
		Pipe *p = q.get();
		c->start(S(), nb * BLOCK_SIZE, [p, im](Block &&b) {
			if (b.offset == SIZE_MAX) mc_fail("a block could not be compressed");
			for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
				long ch = b.offset / CHUNK_SIZE + i; size_t n = bank_size[im][G->kind[ch]], want = n && n <= COMPRESSIBLE_THRESHOLD ? n : CHUNK_SIZE;
				if (b.sizes[i] != want) mc_fail("chunk %ld has size %zu instead of %zu", ch, b.sizes[i], want);
				const uint8_t *g = b.get_chunk(i);
				if (want == CHUNK_SIZE ? g != S() + ch * CHUNK_SIZE : g != b.get_chunk_buffer() + i * b.chunk_padding) mc_fail("get_chunk(%zu) is wrong", i);
			}
			std::lock_guard<std::mutex> l(p->m);
			p->n++;
			if (p->direct) { if (!p->d->push_block(std::move(b))) mc_fail("a block was refused"); }
			else p->blocks.push_back(std::move(b));
		});
		c->finalize(false, [](bool ok) { if (!ok) mc_fail("compression failed"); mc_event_set(EV_FIN); });
		mc_event_wait(EV_FIN);
		if (q->n != nb) mc_fail("%d blocks instead of %d", q->n, nb);
		while (!q->blocks.empty()) { // every order
			int k = mc_choose(q->blocks.size());
			Block b = std::move(q->blocks[k]); q->blocks.erase(q->blocks.begin() + k);
			if (!d->push_block(std::move(b))) mc_fail("a block was refused");
		}
		d->finalize(false, [](bool ok) { if (!ok) mc_fail("decompression failed"); mc_event_set(EV_FIN + 1); });
		mc_event_wait(EV_FIN + 1);
	}
	for (int i = 0; i < nb * 16; i++) if (memcmp(D() + (size_t)i * CHUNK_SIZE, bank[im][G->kind[i]], CHUNK_SIZE)) mc_fail("chunk %d (kind %d) differs after the round trip", i, G->kind[i]);
	for (int i = 0; i < 64; i++) if (D()[nb * BLOCK_SIZE + i] != 0xA5) mc_fail("data written behind the destination");
	mc_nontrivial(("pipe" + std::to_string(G->kind[0]) + std::to_string(G->kind[6]) + std::to_string(G->kind[15]) + std::to_string(G->kind[16])).c_str());
	q.reset(); fini();
}

// ------------------------------------------------------------------ NUMA spreading on simulated machines
struct Machine { bool available; int maxnode; unsigned allowed; unsigned cpus[4]; int fail_at; unsigned online; int calls; long bound[8]; int failed; };
static Machine M; // reset with the other globals
extern "C" {
static struct bitmask *mk_mask(unsigned size, unsigned long v) { mc_fault_pause(true); struct bitmask *b = new struct bitmask; b->size = size; b->maskp = new unsigned long[size / 64 ? size / 64 : 1](); b->maskp[0] = v; mc_fault_pause(false); return b; }
int numa_available(void) { return M.available ? 0 : -1; }
int numa_max_node(void) { return M.maxnode; }
int numa_max_possible_node(void) { return 63; }
int numa_num_configured_nodes(void) { return M.maxnode + 1; }
int numa_num_possible_nodes(void) { return 64; }
int numa_num_possible_cpus(void) { return 64; }
int numa_num_configured_cpus(void) { return 32 - __builtin_clz(M.online | 1); }
int get_nprocs(void) noexcept { return __builtin_popcount(M.online); }
int get_nprocs_conf(void) noexcept { return 32 - __builtin_clz(M.online | 1); }
struct bitmask *numa_get_mems_allowed(void) { return mk_mask(64, M.allowed); }
struct bitmask *numa_allocate_cpumask(void) { return mk_mask(64, 0); }
struct bitmask *numa_allocate_nodemask(void) { return mk_mask(64, 0); }
struct bitmask *numa_bitmask_alloc(unsigned n) { return mk_mask(n < 64 ? 64 : n, 0); }
void numa_bitmask_free(struct bitmask *b) { delete[] b->maskp; delete b; }
int numa_bitmask_isbitset(const struct bitmask *b, unsigned n) { return n < b->size ? b->maskp[n / 64] >> (n % 64) & 1 : 0; }
unsigned numa_bitmask_weight(const struct bitmask *b) { unsigned w = 0; for (unsigned i = 0; i < b->size; i++) w += numa_bitmask_isbitset(b, i); return w; }
int numa_node_to_cpus(int n, struct bitmask *b) { if (n < 0 || n > M.maxnode) { errno = ERANGE; return -1; } b->maskp[0] = M.cpus[n]; return 0; }
int pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *set) noexcept {
	int w = mc_tid(t); unsigned long m = 0; for (int c = 0; c < 64 && c < (int)sz * 8; c++) if (CPU_ISSET(c, set)) m |= 1ul << c;
	for (int c = 64; c < CPU_SETSIZE && c < (int)sz * 8; c++) if (CPU_ISSET(c, set)) mc_fail("processor %d in an affinity mask", c);
	if (M.calls++ == M.fail_at || !(m & M.online)) { M.failed++; return EINVAL; }
	if (w < 1 || w > 7) mc_fail("affinity set for something that is no worker");
	if (M.bound[w]) mc_fail("affinity of worker %d set twice", w - 1);
	M.bound[w] = m;
	return 0;
}
}
// args: worker threads, stream, policy (0 default, 1 spread), processors, nodes, available, a second stream afterwards
static void sc_numa(const long *a) {
	init(1, a[0]);
	M = Machine(); M.available = a[5]; M.maxnode = a[4] - 1; M.fail_at = -1;
	for (int c = 0; c < a[3]; c++) { int n = mc_choose(a[4] + 1); if (n < a[4]) { M.cpus[n] |= 1u << c; M.online |= 1u << c; } } // n == a[4]: offline
	M.allowed = mc_choose(1u << a[4]);
	int f = mc_choose(a[0] + 1); M.fail_at = f == a[0] ? -1 : f;
	if (!M.online) M.online = 1u << a[3];
	std::vector<int> nodes; for (int n = 0; n < a[4]; n++) if (M.allowed >> n & 1) nodes.push_back(n);
	for (int round = 0; round <= a[6]; round++) {
		memset(M.bound, 0, sizeof M.bound); M.calls = M.failed = 0;
		int base = round * a[0]; G->op = round; if (a[1]) dec_kinds(0);
		auto pol = a[2] ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
		if (a[1] == 0) {
			auto s = std::unique_ptr<DataCompressionStream>(new DataCompressionStream(impl, a[0], pol, err_log, dbg_log));
			comp_start(*s, round, 1, 0); s->finalize(false, [round](bool ok) { fin_callback(ok, round); });
			mc_event_wait(EV_FIN + round); s.reset(); check_comp_log(round, OK, 1, 0, 0, false);
		} else {
			auto s = std::unique_ptr<DataDecompressionStream>(new DataDecompressionStream(impl, a[0], pol, err_log, dbg_log));
			prepare_dest(); s->start(D()); s->push_block(make_block(0, 4096)); s->finalize(false, [round](bool ok) { fin_callback(ok, round); });
			mc_event_wait(EV_FIN + round); check_dest(1, true); s.reset(); check_dec_log(round, false, 1);
		}
		bool spread = a[2] && a[5] && !nodes.empty();
		if (!spread && M.calls) mc_fail("affinity set although threads should not be bound");
		if (spread) for (int i = 0; i < a[0]; i++) {
			unsigned long want = M.cpus[nodes[i % nodes.size()]], got = M.bound[1 + base + i];
			if (!got && !M.failed) mc_fail("worker %d was not bound", i);
			if (got && got != want) mc_fail("worker %d is bound to processors %#lx instead of %#lx", i, got, want);
		}
		if (spread && !M.failed && M.calls != a[0]) mc_fail("affinity set %d times for %ld workers", M.calls, a[0]);
		M.fail_at = -1;
	}
	mc_nontrivial(("numa" + std::to_string(M.allowed) + "/" + std::to_string(M.cpus[0]) + "/" + std::to_string(M.cpus[1]) + "/" + std::to_string(M.cpus[2])).c_str());
	fini();
}

// ------------------------------------------------------------------ running out of threads and memory
// args: threads, stream (0 compression, 1 decompression), what fails (0 creating threads, 1 allocations of the constructor, 2 all from
// some one on), policy (1 spread). Which one fails is explored.
static void sc_oom_ctor(const long *a) {
	init(1, a[0]); M = Machine(); M.available = 1; M.maxnode = 1; M.fail_at = -1; M.cpus[0] = 1; M.cpus[1] = 2; M.online = 3; M.allowed = 3;
	auto pol = a[3] ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	{ std::unique_ptr<DataCompressionStream> c; std::unique_ptr<DataDecompressionStream> d;
	int k = mc_choose(a[2] ? 3 * a[0] + 8 : a[0] + 1);
	// memory for the stream itself, and what is computed once for all streams, are not in question
	if (a[3] && mc_choose(2)) { DataCompressionStream warm(impl, 1, pol, err_log, dbg_log); memset(M.bound, 0, sizeof M.bound); }
	long allocs = mc_live_allocs(); bool thrown = false;
	try {
		if (a[2]) mc_fault_alloc(0, k, a[2] == 2); else mc_fault_thread(k);
		if (a[1]) d.reset(new DataDecompressionStream(impl, a[0], pol, err_log, dbg_log)); else c.reset(new DataCompressionStream(impl, a[0], pol, err_log, dbg_log));
	} catch (const std::bad_alloc &) { thrown = true; } catch (const std::system_error &) { thrown = true; }
	mc_fault_alloc(-1, 0, false); mc_fault_thread(-1);
	if (thrown && !mc_fault_fired()) mc_fail("the constructor failed although nothing else did");
	if (thrown && mc_live_threads()) mc_fail("%d threads are left of a stream that could not be constructed", mc_live_threads());
	if (thrown && mc_live_allocs() > allocs + (a[3] ? 1 : 0)) mc_fail("memory leaked by a stream that could not be constructed");
	if (thrown && mc_log_count()) mc_fail("a callback ran");
	memset(M.bound, 0, sizeof M.bound); M.calls = 0;
	if (thrown) { c.reset(); d.reset(); if (a[1]) d.reset(new DataDecompressionStream(impl, a[0], pol, err_log, dbg_log)); else c.reset(new DataCompressionStream(impl, a[0], pol, err_log, dbg_log)); }
	// the stream works
	if (!a[1]) { comp_start(*c, 0, 1, 0); c->finalize(false, [](bool ok) { fin_callback(ok, 0); }); mc_event_wait(EV_FIN); c.reset(); check_comp_log(0, OK, 1, 0, 0, false); }
	else { dec_kinds(0); prepare_dest(); d->start(D()); d->push_block(make_block(0, 4096)); d->finalize(false, [](bool ok) { fin_callback(ok, 0); }); mc_event_wait(EV_FIN); check_dest(1, true); d.reset(); check_dec_log(0, false, 1); }
	mc_nontrivial(("ctor" + std::to_string(k) + (thrown ? "t" : "")).c_str()); }
	fini();
}
// args: threads, blocks, all later allocations of the thread fail as well, blocks of a following operation, epoch
static void sc_oom_comp(const long *a) {
	init(std::max(a[1], a[3]), a[0]);
	long fired; {
		auto s = new_comp(); if (a[4]) s->set_offset_sync_epoch_multiple(a[4] * BLOCK_SIZE);
		int tid = mc_choose(a[0] + 1), k = mc_choose(a[1] + 1);
		prepare_source();
		mc_fault_alloc(tid, k, a[2]);
		s->start(S(), a[1] * BLOCK_SIZE, [](Block &&b) { comp_callback(std::move(b), 0); });
		s->finalize(false, [](bool ok) { fin_callback(ok, 0); });
		mc_event_wait(EV_FIN);
		mc_fault_alloc(-1, 0, false); fired = mc_fault_fired();
		if (a[3]) {
			G->op = 1;
			comp_start(*s, 1, a[3], 0);
			s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
			mc_event_wait(EV_FIN + 1);
		}
	}
	G->destroyed = true;
	int flagged = 0, fin = -1; for (int i = 0; i < mc_log_count(); i++) { const mc_entry *e = mc_log_get(i); if (e->b == 0 && e->kind == L_BLOCK && e->a < 0) flagged++; if (e->b == 0 && e->kind == L_FIN) fin = e->a; }
	if (fired && fin == 0) { // one failing block, whichever
		if (flagged < 1 || flagged > fired) mc_fail("%ld allocations failed, %d blocks were flagged", fired, flagged);
		check_comp_log(0, 4, a[1], 0, a[4], false);
	} else check_comp_log(0, OK, a[1], 0, a[4], false); // nothing failed, or the stream could do without
	if (a[3]) check_comp_log(1, OK, a[3], 0, a[4], false);
	mc_nontrivial(("oom" + std::to_string(fired)).c_str());
	fini();
}
// args: threads, blocks, all later ones as well, failing block + 1, kind of failure, cancel, thread whose allocations fail (-1: explored)
static void sc_oom_dec(const long *a) {
	init(std::max(a[1], 2L), a[0]); dec_kinds(0);
	if (a[3]) G->kind[(a[3] - 1) * 16] = a[4];
	unsigned pushed = 0; bool refused = false; long fired; {
		auto s = new_dec(); Block blocks[16];
		for (int b = 0; b < a[1]; b++) blocks[b] = make_block(b, 4096);
		prepare_dest();
		int tid = a[6] >= 0 ? a[6] : mc_choose(a[0] + 1), k = mc_choose(4);
		mc_fault_alloc(tid, k, a[2]);
		s->start(D());
		for (int b = 0; b < a[1]; b++) {
			bool ok;
			try { ok = s->push_block(std::move(blocks[b])); }
			catch (const std::bad_alloc &) { continue; } // the block is not taken; nothing else has changed
			if (!ok && !a[3]) mc_fail("block %d was refused", b);
			if (ok && refused) mc_fail("block %d was accepted after another one had been refused", b);
			refused |= !ok; if (ok) pushed |= 1u << b;
		}
		auto fin = [](bool ok) { fin_callback(ok, 0); };
		try { s->finalize(a[5], fin); } catch (const std::bad_alloc &) { mc_fail("finalize needs memory"); }
		if (a[5]) stopped(0);
		mc_event_wait(EV_FIN);
		mc_fault_alloc(-1, 0, false); fired = mc_fault_fired();
		check_dest(pushed, !a[3] && !a[5]);
		G->op = 1; dec_kinds(0); prepare_dest();
		s->start(D()); if (!s->push_block(make_block(1, 4096))) mc_fail("a block of the next operation was refused");
		s->finalize(false, [](bool ok) { fin_callback(ok, 1); });
		mc_event_wait(EV_FIN + 1); check_dest(2, true);
	}
	G->destroyed = true; G->op = 0;
	check_dec_log(0, false, a[3] && !a[5] ? 0 : a[3] ? -1 : 1);
	check_dec_log(1, false, 1);
	mc_nontrivial(("oomdec" + std::to_string(fired) + (refused ? "r" : "")).c_str());
	fini();
}

static const mc_scenario scenarios[] = {
	{"oom_ctor", sc_oom_ctor}, {"oom_comp", sc_oom_comp}, {"oom_dec", sc_oom_dec},
	{"comp", sc_comp}, {"epoch", sc_epoch}, {"fail", sc_fail}, {"cancel", sc_cancel}, {"comp_seq", sc_comp_seq}, {"comp_destroy", sc_comp_destroy},
	{"dec", sc_dec}, {"dec_fail", sc_dec_fail}, {"dec_cancel", sc_dec_cancel}, {"dec_seq", sc_dec_seq}, {"dec_destroy", sc_dec_destroy},
	{"ready", sc_ready}, {"latch", sc_latch}, {"barrier", sc_barrier}, {"pipe", sc_pipe}, {"numa", sc_numa}, {"epoch_set", sc_epoch_set}, {"huge", sc_huge}, {"align", sc_align}, {nullptr, nullptr}};

#include "plans.inc"

static bool want_bank;
static void warmup() { if (want_bank) make_bank(); nullos << "warm-up " << 1 << std::endl; }
int main(int argc, char **argv) { want_bank = argc > 1 && !strcmp(argv[1], "S13"); return mc_run(argc, argv, scenarios, plans, (uint8_t *)__data_start, (uint8_t *)_end, warmup); }
