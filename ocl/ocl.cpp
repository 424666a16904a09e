// Bounded-exhaustive exploration of the OpenCL decompressor: the real host code and the real kernel, executed by a
// stand-in runtime (fakecl) or, with -DREAL_CL, by the installed OpenCL implementation (properties O01..O09).
#include "../codec/gen.hpp"
#include <lib842/cl.h>
#include <lib842/common.h>
#include <lib842/sw.h>
#include <dlfcn.h>
#include <iostream>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#ifndef REAL_CL
#include "fakecl.h"
static const bool FAKE = true;
#else
static const bool FAKE = false;
#endif
#include "iohook.h"

using namespace mc;
using std::string; using std::vector;
using Fmt = lib842::CLDecompressorInputFormat;

static Explorer ex;
static bool DEEP = false;
extern const char *LIB842_CLDECOMPRESS_KERNEL_SOURCE;
#define FAIL(...) do { char _b[1500]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
static string num(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- decompressors
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullbuf; static std::ostream nullos(&nullbuf);

// The installed implementation runs compilers and linkers that may fail for reasons of their own
static void patiently(const std::function<void()> &f) {
	for (int k = 0; k < (FAKE ? 0 : 5); k++) { try { f(); return; } catch (const cl::Error &) { usleep(500000 << k); } }
	f();
}
static void own_pocl_cache() {
	static pid_t p; if (FAKE || p == getpid()) return;
	p = getpid(); string d = iohook::scratch + "/pocl-" + num(p); ::mkdir(d.c_str(), 0700); setenv("POCL_CACHE_DIR", d.c_str(), 1);
}
struct DevCtx { cl::vector<cl::Device> devs; cl::Context ctx; cl::CommandQueue q; };
static std::map<vector<size_t>, std::unique_ptr<lib842::CLHostDecompressor>> hosts;
static std::map<vector<size_t>, std::unique_ptr<lib842::CLDeviceDecompressor>> devds;
static std::unique_ptr<DevCtx> dctx;
static void drop_all() { hosts.clear(); devds.clear(); dctx.reset(); }
static lib842::CLHostDecompressor &host(int fmt, size_t chunk, size_t stride) {
	auto &h = hosts[{(size_t)fmt, chunk, stride}];
	if (!h) patiently([&] { h = std::make_unique<lib842::CLHostDecompressor>(chunk, stride, (Fmt)fmt, false, false); });
	return *h;
}
static DevCtx &devctx() {
	if (!dctx) {
		auto d = std::make_unique<DevCtx>();
		cl::vector<cl::Platform> p; cl::Platform::get(&p);
		p[0].getDevices(CL_DEVICE_TYPE_ALL, &d->devs);
		d->ctx = cl::Context(d->devs); d->q = cl::CommandQueue(d->ctx, d->devs[0], 0);
		dctx = std::move(d);
	}
	return *dctx;
}
static lib842::CLDeviceDecompressor &dev(int fmt, size_t chunk, size_t stride) {
	auto &h = devds[{(size_t)fmt, chunk, stride}];
	if (!h) patiently([&] { h = std::make_unique<lib842::CLDeviceDecompressor>(devctx().ctx, devctx().devs, chunk, stride, (Fmt)fmt, []() -> std::ostream & { return nullos; }, []() -> std::ostream & { return nullos; }); });
	return *h;
}

// ---------------------------------------------------------------- batches
enum { INSZ = 1, OUTSZ = 2, RETS = 4, MAP = 8, TIGHT = 16, DEVICE = 32, EAGER = 64, OTHERFILL = 128 };
struct Ch { bytes in; size_t cap; };
struct Batch {
	int fmt = 0; size_t chunk = 0, stride = 0; int flags = INSZ | OUTSZ | RETS, order = 0; size_t inoff = 0, outoff = 0;
	vector<Ch> ch; vector<size_t> perm;
	Case mk(const char *kind = "batch") const {
		Case c; c.kind = kind; c.p = {(uint64_t)fmt, chunk, stride, (uint64_t)flags, (uint64_t)order, inoff, outoff, ch.size()};
		for (size_t i = 0; i < ch.size(); i++) { c.p.push_back(ch[i].in.size()); c.p.push_back(ch[i].cap); c.p.push_back(perm.empty() ? i : perm[i]); c.a.insert(c.a.end(), ch[i].in.begin(), ch[i].in.end()); }
		return c;
	}
	static Batch from(const Case &c) {
		Batch b; b.fmt = c.p[0]; b.chunk = c.p[1]; b.stride = c.p[2]; b.flags = c.p[3]; b.order = c.p[4]; b.inoff = c.p[5]; b.outoff = c.p[6];
		size_t o = 0; for (size_t i = 0; i < c.p[7]; i++) { size_t n = c.p[8 + 3 * i]; b.ch.push_back({bytes(c.a.begin() + o, c.a.begin() + o + n), (size_t)c.p[9 + 3 * i]}); b.perm.push_back(c.p[10 + 3 * i]); o += n; }
		return b;
	}
};

// What must come out for one chunk
struct Exp { bool must_ok = false, may_ok = false, nospace = false, keep = false; bytes out; };
static bytes le64(uint64_t x) { bytes b(8); memcpy(b.data(), &x, 8); return b; }
static bytes marked(size_t chunk, const bytes &stream, uint64_t size, uint8_t pad = 0x5a) { // a compressed chunk of the MAYBE / INPLACE formats
	bytes b(LIB842_COMPRESSED_CHUNK_MARKER, LIB842_COMPRESSED_CHUNK_MARKER + 16), s = le64(size);
	b.insert(b.end(), s.begin(), s.end()); b.resize(chunk, pad);
	if (stream.size() <= chunk - 24) std::copy(stream.begin(), stream.end(), b.end() - stream.size());
	return b;
}
static Exp expect_stream(const uint8_t *p, size_t n, size_t cap) {
	auto m = ref::decode(p, n, cap);
	ex.state(mix(hash64(m.out.data(), m.out.size()), m.st)); ex.transitions(m.out.size() / 8 + 2); ex.nontrivial(m.out.size() > 0); ex.outcome(m.st);
	Exp e; e.out = m.out;
	bool padded = m.complete && (m.bits + 63) / 64 * 8 <= n;
	switch (m.st) {
	case ref::OK: e.may_ok = true; e.must_ok = padded && !m.has_short; break;
	case ref::NOSPACE: e.nospace = padded && !m.has_short; break;
	case ref::BAD: e.may_ok = m.complete && m.out.size() <= cap; break; // the kernel does not verify the checksum
	case ref::UNSPEC: break;
	}
	return e;
}
// In-place: does the output stay behind the part of the input that was already loaded (6 words of look-ahead)?
static bool inplace_safe(const bytes &slot, size_t chunk, size_t size) {
	auto m = ref::decode(slot.data() + chunk - size, size, chunk, true);
	size_t bit = 0, k = 0, nw = size / 8, base = (chunk - size) / 8;
	for (auto &t : m.toks) {
		bit += 5; size_t words = 0;
		if (t.op < 26) { bit += ref::tpl_bits(t.op); words = 1; } else if (t.op == ref::REPEAT) { bit += 6; words = t.f[0] + 1; } else if (t.op == ref::ZEROS) words = 1;
		size_t loaded = (bit + 63) / 64 + 6;
		for (; words--; k++) if (k >= base && k - base >= loaded && k - base < nw) return false;
	}
	return true;
}

static bool is_marked(const bytes &s) { return s.size() >= 24 && !memcmp(s.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16); }

static bool run_batch(const Case &c, string &why) {
	own_pocl_cache();
	Batch b = Batch::from(c);
	size_t n = b.ch.size(); const int fl = b.flags;
	uint8_t FILL = fl & OTHERFILL ? 0x00 : 0xA5;
#ifndef REAL_CL
	fakecl::cfg.order = b.order; fakecl::cfg.lazy = !(fl & EAGER); fakecl::cfg.fill = FILL;
#endif
	// input and output areas
	size_t insize = b.fmt == 0 ? n * b.stride : n * b.chunk, outsize = n * b.chunk;
	if ((fl & TIGHT) && n && b.fmt == 0) { insize = (n - 1) * b.stride + b.ch[n - 1].in.size(); outsize = (n - 1) * b.chunk + std::min(b.chunk, b.ch[n - 1].cap); }
	if (b.fmt == 0 && (fl & TIGHT) && n == 1) outsize = b.ch[0].cap;
	bytes in(insize, FILL), out(outsize, 0x3C);
	for (size_t i = 0; i < n; i++) { size_t st = b.fmt == 0 ? b.stride : b.chunk; std::copy(b.ch[i].in.begin(), b.ch[i].in.end(), in.begin() + i * st); }
	vector<size_t> isz(n), osz(n), map = b.perm; vector<int> rets(n, 12345);
	for (size_t i = 0; i < n; i++) { isz[i] = b.ch[i].in.size(); osz[i] = b.ch[i].cap; }
	if (b.fmt == 2) out = in;
	bytes before = out;
	string exc;
	try {
		if (!(fl & DEVICE)) {
			static Guarded *gi = new Guarded(1 << 22), *go = new Guarded(1 << 22);
			if (insize + 64 > gi->cap || outsize + 64 > gi->cap) { printf("batch too big\n"); fflush(stdout); _exit(90); }
			uint8_t *pi = gi->place(insize, 0), *po = go->place(outsize, 0);
			memcpy(pi, in.data(), insize); memcpy(po, out.data(), outsize);
			long long t = 0;
			host(b.fmt, b.chunk, b.stride).decompress(b.fmt == 2 ? po : pi, insize, fl & INSZ ? isz.data() : nullptr, po, outsize, fl & OUTSZ ? osz.data() : nullptr, fl & MAP ? map.data() : nullptr, fl & RETS ? rets.data() : nullptr, &t);
			if (!gi->intact() || !go->intact()) FAIL("bytes outside the caller's buffers were modified");
			if (b.fmt != 2 && memcmp(pi, in.data(), insize)) FAIL("the caller's input was modified");
			if (t != -1) FAIL("a time (%lld) is reported without profiling", t);
			memcpy(out.data(), po, outsize);
		} else {
			auto &D = devctx(); auto &d = dev(b.fmt, b.chunk, b.stride);
			bytes din(b.inoff + insize, 0xE1), dout(b.outoff + outsize, 0xE2);
			std::copy(in.begin(), in.end(), din.begin() + b.inoff); std::copy(out.begin(), out.end(), dout.begin() + b.outoff);
			if (b.fmt == 2) std::fill(dout.begin(), dout.begin() + b.outoff, 0xE1);
			cl::Buffer bi(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, std::max<size_t>(1, b.fmt == 2 ? dout.size() : din.size()), b.fmt == 2 ? dout.data() : din.data()), bo;
			if (b.fmt == 2) bo = bi; else bo = cl::Buffer(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, std::max<size_t>(1, dout.size()), dout.data());
			vector<cl_ulong> vi(isz.begin(), isz.end()), vo(osz.begin(), osz.end()), vm(map.begin(), map.end()); vector<cl_int> vr(n, 12345);
			cl::Buffer Bi, Bo, Br, Bm; auto F = CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR;
			if (fl & INSZ) Bi = cl::Buffer(D.ctx, F, 8 * n, vi.data());
			if (fl & OUTSZ) Bo = cl::Buffer(D.ctx, F, 8 * n, vo.data());
			if (fl & RETS) Br = cl::Buffer(D.ctx, F, 4 * n, vr.data());
			if (fl & MAP) Bm = cl::Buffer(D.ctx, F, 8 * n, vm.data());
			cl::Event e;
			d.decompress(D.q, n, bi, b.inoff, Bi, bo, b.outoff, Bo, Br, Bm, nullptr, &e); // the order documented in cl.h
			e.wait();
			D.q.enqueueReadBuffer(bo, CL_TRUE, 0, dout.size(), dout.data());
			if (fl & OUTSZ) { D.q.enqueueReadBuffer(Bo, CL_TRUE, 0, 8 * n, vo.data()); std::copy(vo.begin(), vo.end(), osz.begin()); }
			if (fl & RETS) { D.q.enqueueReadBuffer(Br, CL_TRUE, 0, 4 * n, vr.data()); std::copy(vr.begin(), vr.end(), rets.begin()); }
			if (fl & INSZ) { auto w = vi; D.q.enqueueReadBuffer(Bi, CL_TRUE, 0, 8 * n, w.data()); if (w != vi) FAIL("the input sizes were modified"); }
			if (fl & MAP) { auto w = vm; D.q.enqueueReadBuffer(Bm, CL_TRUE, 0, 8 * n, w.data()); if (w != vm) FAIL("the shuffle map was modified"); }
			if (b.fmt != 2) { bytes w(din.size()); D.q.enqueueReadBuffer(bi, CL_TRUE, 0, w.size(), w.data()); if (w != din) FAIL("the input was modified"); }
			for (size_t i = 0; i < b.outoff; i++) if (dout[i] != (b.fmt == 2 ? 0xE1 : 0xE2)) FAIL("byte %zu before the output offset was modified", i);
			std::copy(dout.begin() + b.outoff, dout.end(), out.begin());
		}
	} catch (const cl::Error &e) { exc = string("cl::Error ") + e.what() + " " + num(e.err()); }
	catch (const std::exception &e) { exc = string("exception ") + e.what(); }
#ifndef REAL_CL
	if (!fakecl::compile_error.empty()) { printf("kernel compiler: %s\n", fakecl::compile_error.c_str()); fflush(stdout); _exit(90); }
	if (!fakecl::st.misuse.empty()) FAIL("OpenCL rules broken: %s", fakecl::st.misuse.c_str());
#endif
	if (!exc.empty()) FAIL("%s for %zu chunks", exc.c_str(), n);
	for (size_t i = 0; i < n; i++) {
		size_t cap = fl & OUTSZ ? b.ch[i].cap : b.chunk; Exp e; bool verbatim = false, anything = false;
		size_t slot0 = i * b.chunk, slotn = std::min(b.chunk, outsize - std::min(outsize, slot0));
		if (b.fmt == 0) {
			size_t avail = fl & INSZ ? b.ch[i].in.size() : std::min(b.stride, insize - i * b.stride);
			e = expect_stream(in.data() + i * b.stride, avail, std::min(cap, slotn));
			if (cap > slotn) { printf("bad batch\n"); fflush(stdout); _exit(90); }
		} else {
			const bytes &s = b.ch[i].in; ex.nontrivial();
			if (!is_marked(s)) {
				if (cap < b.chunk && b.fmt == 1) e.nospace = true;
				else { e.must_ok = e.may_ok = true; verbatim = true; e.out = s; }
			} else {
				uint64_t sz; memcpy(&sz, s.data() + 16, 8);
				if (sz == 0) { e.must_ok = e.may_ok = true; e.keep = true; }
				else if (sz > b.chunk - 24 || sz % 8) { } // no such chunk: rejected
				else {
					e = expect_stream(s.data() + b.chunk - sz, sz, cap);
					if (b.fmt == 2 && !inplace_safe(s, b.chunk, sz)) anything = true;
				}
			}
		}
		(void)verbatim;
		int r = rets[i];
		const uint8_t *o = out.data() + slot0;
		string at = "chunk " + num(i) + " of " + num(n) + ": ";
		bool ok = fl & RETS ? r == 0 : e.must_ok;
		if (fl & RETS) {
			if (anything) { if (r > 0) FAIL("%sreturn value %d", at.c_str(), r); }
			else {
				if (r == 12345) FAIL("%sno return value was stored", at.c_str());
				if (e.must_ok && r != 0) FAIL("%sreturn value %d for a well-formed stream of %zu bytes", at.c_str(), r, e.out.size());
				if (e.nospace && r != -ENOSPC) FAIL("%sreturn value %d instead of -ENOSPC", at.c_str(), r);
				if (!e.may_ok && r >= 0) FAIL("%sreturn value %d for a malformed or oversized stream", at.c_str(), r);
				if (r > 0) FAIL("%sreturn value %d", at.c_str(), r);
			}
		}
		if ((fl & OUTSZ) && (fl & RETS) && !anything) {
			if (r != 0 && osz[i] != 0) FAIL("%sfailed with %d but reports a length of %zu", at.c_str(), r, osz[i]);
			if (r == 0 && osz[i] != (e.keep ? b.chunk : e.out.size())) FAIL("%slength %zu reported instead of %zu", at.c_str(), osz[i], e.keep ? b.chunk : e.out.size());
		}
		if ((fl & OUTSZ) && !(fl & RETS) && e.must_ok && osz[i] != (e.keep ? b.chunk : e.out.size())) FAIL("%slength %zu reported instead of %zu", at.c_str(), osz[i], e.out.size());
		if ((fl & OUTSZ) && osz[i] > b.chunk && cap <= b.chunk) FAIL("%slength %zu exceeds the chunk", at.c_str(), osz[i]);
		if (e.keep) { if (memcmp(o, before.data() + slot0, b.chunk)) FAIL("%sthe destination of a skipped chunk was modified", at.c_str()); continue; }
		if (ok && !anything && memcmp(o, e.out.data(), e.out.size())) { size_t k = 0; while (o[k] == e.out[k]) k++; FAIL("%swrong data at byte %zu of %zu", at.c_str(), k, e.out.size()); }
		// outside of the capacity
		if (FAKE || (fl & DEVICE)) for (size_t k = std::min(cap, slotn); k < slotn; k++) {
			uint8_t p = before[slot0 + k];
			if (o[k] != p && !(b.fmt == 0 && !(fl & DEVICE) && o[k] == FILL)) FAIL("%sbyte %zu beyond the capacity %zu was written", at.c_str(), k, cap);
		}
	}
	return true;
}

// Buffers the format does not allow: p = {format, interface, what}
static bool run_reject(const Case &c, string &why) {
	int fmt = c.p[0], what = c.p[2]; bool dv = c.p[1]; ex.nontrivial(); ex.transitions(1);
	static uint8_t A[512], B[512], A0[512], B0[512]; for (int i = 0; i < 512; i++) { A[i] = A0[i] = i * 7; B[i] = B0[i] = i * 5 + 1; }
	size_t isz[2] = {128, 128}, osz[2] = {128, 128}; int r[2] = {77, 77}; bool thrown = false; long long t;
#ifndef REAL_CL
	long l0 = fakecl::st.launches;
#endif
	try {
		if (!dv) {
			// what: 0 different pointers (in place) / equal pointers (otherwise), 1 output shorter, 2 output longer
			bool inp = fmt == 2; const uint8_t *in = A; uint8_t *out = (what == 0) == inp ? B : A; size_t n = what == 1 ? 128 : what == 2 ? 384 : 256;
			host(fmt, 128, 128).decompress(in, 256, isz, out, n, osz, nullptr, r, &t);
		} else {
			auto &D = devctx(); cl::Buffer x(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, 512, A), y(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, 512, B);
			// what: 0 different buffers, 1 different offsets, 2 both
			cl::Event e; bool d0 = what != 1; size_t o1 = what ? 128 : 0;
			try { dev(fmt, 128, 128).decompress(D.q, 2, x, 0, cl::Buffer(), d0 ? y : x, o1, cl::Buffer(), cl::Buffer(), cl::Buffer(), nullptr, &e); e.wait(); } catch (const cl::Error &) { thrown = true; }
			bytes w(512); D.q.enqueueReadBuffer(x, CL_TRUE, 0, 512, w.data()); if (memcmp(w.data(), A0, 512)) FAIL("the first buffer was modified");
			D.q.enqueueReadBuffer(y, CL_TRUE, 0, 512, w.data()); if (memcmp(w.data(), B0, 512)) FAIL("the second buffer was modified");
		}
	} catch (const cl::Error &e) { thrown = true; if (e.err() != CL_INVALID_VALUE) FAIL("cl::Error %d instead of CL_INVALID_VALUE", e.err()); }
	if (!thrown) FAIL("buffers the format does not allow are accepted");
	if (memcmp(A, A0, 512) || memcmp(B, B0, 512)) FAIL("the caller's buffers were modified");
	if (r[0] != 77 || r[1] != 77 || osz[0] != 128 || osz[1] != 128) FAIL("results were stored although the call was rejected");
#ifndef REAL_CL
	if (fakecl::st.launches != l0) FAIL("the kernel was executed");
#endif
	return true;
}

static bool run_many(const Case &c, string &why) { // p = {number of chunks, device interface}
	size_t n = c.p[0]; Batch b; b.chunk = 16; b.stride = 24; b.flags |= c.p[1] ? DEVICE | MAP : 0; b.order = c.p[1];
	for (size_t i = 0; i < n; i++) { Builder s; s.d8(distinct_word(i) + i); if (i % 3) s.zeros(); s.end(); b.ch.push_back({s.w.v, s.out.size()}); b.perm.push_back(n - 1 - i); }
	return run_batch(b.mk(), why);
}
#ifndef REAL_CL
// Chunks at huge distances or offsets (device interface, sparse buffers): p = {chunk, stride, n, input offset, output offset, shuffled}
static bool run_far(const Case &c, string &why) {
	size_t chunk = c.p[0], stride = c.p[1], n = c.p[2], io = c.p[3], oo = c.p[4];
	fakecl::cfg.sparse = true; fakecl::cfg.lazy = true; fakecl::cfg.order = 0;
	auto &D = devctx(); auto &d = dev(0, chunk, stride);
	cl::Buffer in(D.ctx, CL_MEM_READ_ONLY, io + (n - 1) * stride + 128), out(D.ctx, CL_MEM_READ_WRITE, oo + (n - 1) * chunk + 64);
	vector<cl_ulong> is, os, map; vector<bytes> exp; vector<cl_int> ret(n, 5);
	for (size_t i = 0; i < n; i++) {
		Builder b; for (size_t k = 0; k <= i + 1; k++) b.d8(distinct_word(10 * i + k)); b.repeat(0); uint64_t f[4] = {1, 0, 0, 0}; b.tpl(25, f); b.end();
		D.q.enqueueWriteBuffer(in, CL_TRUE, io + i * stride, b.w.v.size(), b.w.v.data()); is.push_back(b.w.v.size()); os.push_back(64); map.push_back(n - 1 - i); exp.push_back(b.out);
		ex.state(hash64(b.out.data(), b.out.size())); ex.transitions(i + 5); ex.nontrivial();
	}
	auto F = CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR;
	cl::Buffer Bi(D.ctx, F, 8 * n, is.data()), Bo(D.ctx, F, 8 * n, os.data()), Br(D.ctx, F, 4 * n, ret.data()), Bm(D.ctx, F, 8 * n, map.data());
	cl::Event e; d.decompress(D.q, n, in, io, Bi, out, oo, Bo, Br, c.p[5] ? Bm : cl::Buffer(), nullptr, &e); e.wait();
	D.q.enqueueReadBuffer(Bo, CL_TRUE, 0, 8 * n, os.data()); D.q.enqueueReadBuffer(Br, CL_TRUE, 0, 4 * n, ret.data());
	for (size_t i = 0; i < n; i++) {
		if (ret[i] || os[i] != exp[i].size()) FAIL("chunk %zu: returned %d, length %zu", i, ret[i], (size_t)os[i]);
		bytes g(exp[i].size()); D.q.enqueueReadBuffer(out, CL_TRUE, oo + i * chunk, g.size(), g.data()); if (g != exp[i]) FAIL("chunk %zu, %zu bytes after the first: wrong data", i, i * chunk);
	}
	if (!fakecl::st.misuse.empty()) FAIL("OpenCL rules broken: %s", fakecl::st.misuse.c_str());
	return true;
}
#endif

// C interface
static bool run_c(const Case &c, string &why) {
	static Guarded *gi = new Guarded(1 << 20), *go = new Guarded(1 << 20);
	size_t cap = c.p[0]; uint8_t *pi = gi->place(c.a.size(), 0), *po = go->place(cap, 0);
	if (c.a.size()) memcpy(pi, c.a.data(), c.a.size());
	memset(po, 0x3C, cap);
	size_t olen = cap; int r;
	own_pocl_cache();
	static bool up; // the first call that compiles the kernel, see patiently()
	for (int k = 0; !FAKE && !up && c.a.size() && cap && k < 5; k++) { size_t n = cap; r = cl842_decompress(pi, c.a.size(), po, &n); up = r != -ENOMEM; if (!up) usleep(500000 << k); memset(po, 0x3C, cap); }
	try { r = cl842_decompress(pi, c.a.size(), po, &olen); }
	catch (const std::exception &e) { FAIL("a C++ exception escaped: %s", e.what()); }
	if (!gi->intact() || !go->intact()) FAIL("bytes outside the given buffers were modified");
	if (c.a.size() && memcmp(pi, c.a.data(), c.a.size())) FAIL("the input buffer was modified");
#ifndef REAL_CL
	if (!fakecl::st.misuse.empty()) FAIL("OpenCL rules broken: %s", fakecl::st.misuse.c_str());
#endif
	Exp e = expect_stream(c.a.data(), c.a.size(), cap);
	if (r > 0) FAIL("return value %d", r);
	if (e.must_ok && r) FAIL("return value %d for a well-formed stream (%zu -> %zu bytes)", r, c.a.size(), e.out.size());
	if (e.nospace && r != -ENOSPC) FAIL("return value %d instead of -ENOSPC", r);
	if (!e.may_ok && r >= 0) FAIL("success for a malformed or oversized stream");
	if (r == 0 && (olen != e.out.size() || memcmp(po, e.out.data(), olen))) FAIL("wrong output: %zu bytes instead of %zu, or wrong data", olen, e.out.size());
	if (r && olen && c.a.size()) FAIL("failed with %d but reports a length of %zu", r, olen);
	return true;
}

// ---------------------------------------------------------------- collecting cases into batches
struct Batcher {
	Explorer &e; Batch b; size_t max; uint64_t k = 0; bool mixed; Ch good;
	Batcher(Explorer &e, size_t chunk, size_t stride, size_t max, bool mixed = false) : e(e), max(max), mixed(mixed) {
		b.chunk = chunk; b.stride = stride;
		Builder g = prefix(3); uint64_t f[4] = {1, 0, 0, 0}; g.tpl(25, f); g.repeat(1); g.end(); good = {g.w.v, 48};
	}
	void add(const bytes &s, size_t cap) {
		if (s.size() > b.stride || cap > b.chunk) { printf("stream too long for the batch: %zu %zu\n", s.size(), cap); fflush(stdout); _exit(90); }
		b.ch.push_back({s, cap});
		if (mixed) b.ch.push_back(good);
		if (b.ch.size() >= max) flush();
	}
	void flush() { if (b.ch.empty()) return; b.order = k++ % 4; e.exec(b.mk()); b.ch.clear(); }
	~Batcher() { flush(); }
};
static Batch single(const bytes &s, size_t cap, size_t chunk, size_t stride, int fl = INSZ | OUTSZ | RETS) { Batch b; b.chunk = chunk; b.stride = stride; b.flags = fl | TIGHT; b.ch = {{s, cap}}; return b; }

// Chunk kinds for batch compositions (ALWAYS format), chunk >= 64, stride >= 128
static vector<Ch> kinds() {
	vector<Ch> v; uint64_t f[4] = {0, 0, 0, 0};
	{ Builder b = prefix(8); b.end(); v.push_back({b.w.v, 64}); }                                        // literal, full
	{ Builder b = prefix(1); b.repeat(6); b.end(); v.push_back({b.w.v, 64}); }                           // repeat
	{ Builder b; b.end(); v.push_back({b.w.v, 64}); }                                                    // empty
	{ Builder b = prefix(2); b.tpl(25, f); b.tpl(0x14, f); b.tpl(18, f); b.zeros(); b.end(); v.push_back({b.w.v, 48}); } // indexes
	{ Builder b = prefix(8); b.end(); v.push_back({b.w.v, 56}); }                                        // too big
	{ Builder b = prefix(1); b.raw(0x1f, 5); b.raw(~0ull, 64); v.push_back({b.w.v, 64}); }               // unknown operation
	{ Builder b = prefix(3); b.end(); bytes t(b.w.v.begin(), b.w.v.end() - 8); v.push_back({t, 64}); }   // truncated
	{ Builder b; f[0] = 9; b.tpl(25, f); b.end(); v.push_back({b.w.v, 64}); }                            // bad index
	return v;
}

// ---------------------------------------------------------------- properties
static const int CH = 4608, ST = 9728; // for streams with long prefixes: 512 words + runs
static int O01() {
	bool ok = true;
	for (int pre : {0, 1, 2, 3, 63, 64, 65, 128, 255, 256, 257, 512}) {
		size_t chunk = pre * 8 + 512 * 4 + 64, stride = 2 * chunk + 8 * (pre % 5);
		ok = ok && ex.family("1 token after " + num(pre) + " words", [&](Explorer &e) { Batcher B(e, chunk, stride, FAKE ? 50 : 300); walk(e, prefix(pre), 1, {FAKE ? 3 : 1}, false, false, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); }); });
		if (pre > 3) ok = ok && ex.family("1 token after " + num(pre) + " words made of runs", [&](Explorer &e) { Batcher B(e, chunk, stride, FAKE ? 50 : 300); walk(e, prefix_runs(pre), 1, {FAKE ? 2 : 0}, false, false, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); }); });
		if (pre <= 3 || DEEP) ok = ok && ex.family("2 tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B(e, chunk, stride, FAKE ? 50 : 2000); walk(e, prefix(pre), 2, !FAKE ? vector<int>{0, 0} : pre > 3 ? vector<int>{1, 0} : DEEP ? vector<int>{2, 2} : vector<int>{2, 1}, false, false, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); }); });
		if (FAKE && pre <= 1) ok = ok && ex.family("3 tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B(e, chunk, stride, 50); walk(e, prefix(pre), 3, DEEP ? vector<int>{2, 1, 1} : vector<int>{1, 0, 0}, false, false, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); }); });
	}
	ok = ok && ex.family("every template at every bit offset of a 64-bit word", [&](Explorer &e) {
		Batcher B(e, 2048, 2048, FAKE ? 60 : 600);
		for (int z = 0; z < 64; z++) for (auto &t : tokens(prefix(1), FAKE ? 2 : 0, false, false)) if (e.mine()) { Builder b = prefix(1); for (int i = 0; i < z; i++) b.zeros(); apply(b, t); b.end(); B.add(b.w.v, b.out.size()); }
	});
	if (FAKE) ok = ok && ex.family("every single operand bit of every template", [&](Explorer &e) {
		Batcher B(e, 2560, 5120, 40);
		for (int t = 0; t < 26; t++) for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int nb = ref::field_bits(ref::TPL[t][i]); for (int k = 0; k <= nb; k++) if (e.mine()) { Builder b = prefix(300); uint64_t f[4] = {0, 0, 0, 0}; f[i] = k == nb ? (nb == 64 ? ~0ull : (1ull << nb) - 1) : 1ull << k; b.tpl(t, f); b.end(); B.add(b.w.v, b.out.size()); } }
	});
	ok = ok && ex.family("every REPEAT operand", [&](Explorer &e) {
		Batcher B(e, 2048, 512, FAKE ? 60 : 600);
		for (int n = 0; n < 64; n++) for (int m = 0; m < 64; m += FAKE ? 1 : 9) if (e.mine()) { Builder b = prefix(1 + (n & 1)); b.repeat(n); if (m) b.repeat(m); uint64_t f[4] = {0, 0, 0, 0}; b.tpl(25, f); b.end(); B.add(b.w.v, b.out.size()); }
	});
	vector<int> T;
	for (int t = 0; t < 1100; t++) if (DEEP ? true : t < 4 || (t >= 62 && t <= 67) || (t >= 127 && t <= 130) || (t >= 191 && t <= 193) || (t >= 254 && t <= 259) || (t >= 319 && t <= 321) || (t >= 510 && t <= 514) || (t >= 767 && t <= 769)) T.push_back(t);
	if (!FAKE) T = {1, 64, 65, 256, 257, 513};
	ok = ok && ex.family("every index value of every width at every listed position", [&](Explorer &e) {
		Batcher B(e, 9216, 10240, FAKE ? 32 : 128);
		for (int t : T) {
			Builder p; bool built = false;
			auto go = [&](int op, int field, unsigned idx) {
				if (!e.mine()) return;
				if (!built) { p = prefix(t); built = true; }
				Builder b = p; uint64_t f[4] = {0x1111, 0x2222, 0x3333, 0x4444}; f[field] = idx; b.tpl(op, f);
				if (b.out.size() == p.out.size()) b.out.insert(b.out.end(), 8, 0); // invalid index
				b.end(); B.add(b.w.v, (t + 1) * 8);
			};
			for (unsigned i = 0; i < 256; i++) { go(0x19, 0, i); go(0x0a, 0, i); go(0x05, 1, i); go(0x02, 1, i); go(0x01, 2, i); }
			for (unsigned i = 0; i < 512; i++) { go(0x14, 0, i); go(0x04, 1, i); }
		}
	});
	auto K = kinds();
	ok = ok && ex.family("every batch composition", [&](Explorer &e) {
		int N = DEEP ? 6 : FAKE ? 5 : 3;
		for (int n = 1; n <= N; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= K.size(); for (size_t s = 0; s < tot; s++) if (e.mine()) { Batch b; b.chunk = 72; b.stride = 136; b.order = s % 3; size_t x = s; for (int i = 0; i < n; i++) { b.ch.push_back(K[x % K.size()]); x /= K.size(); } e.exec(b.mk()); } }
	});
	ok = ok && ex.family("every chunk count, with one bad chunk anywhere", [&](Explorer &e) {
		for (int n = 1; n <= (FAKE ? DEEP ? 1100 : 600 : 520); n += FAKE ? 1 : 57) for (int bad = -1; bad < n; bad = bad < 0 ? 0 : bad == 0 && n > 1 ? n - 1 : bad == n - 1 && n > 3 ? n : n) if (e.mine()) {
			Batch b; b.chunk = 64; b.stride = 128; b.order = n % 4;
			for (int i = 0; i < n; i++) { if (i == bad) { b.ch.push_back(K[5 + n % 3]); continue; } Builder c; c.d8(distinct_word(i * 3 + n)); if (i & 1) c.repeat(i % 7); c.end(); b.ch.push_back({c.w.v, c.out.size()}); }
			e.exec(b.mk());
		}
	});
	ok = ok && ex.family("chunk sizes and strides", [&](Explorer &e) {
		vector<std::pair<size_t, size_t>> CS = {{64, 72}, {64, 128}, {72, 136}, {128, 4096}, {4096, 128}, {65536, 131072}};
		if (FAKE) { CS.push_back({80, 1000}); CS.push_back({1000, 88}); CS.push_back({32768, 65536}); }
		for (auto &cs : CS) for (int n = 1; n <= 6; n++) for (int v = 0; v < 4; v++) if (e.mine()) {
			Batch b; b.chunk = cs.first; b.stride = cs.second; b.order = v;
			for (int i = 0; i < n; i++) { Builder c = prefix(1 + (i + v) % 4); c.repeat(i % 3); c.end(); b.ch.push_back({c.w.v, c.out.size()}); }
			e.exec(b.mk());
		}
	});
	ok = ok && ex.family("a partial last chunk", [&](Explorer &e) {
		for (int n = 1; n <= (FAKE ? 6 : 3); n++) for (int v = n == 1; v < 8; v++) for (int d = 0; d < 2; d++) for (int sz = 0; sz < 2; sz++) if (e.mine()) {
			Batch b; b.chunk = 64; b.stride = 128; b.flags = TIGHT | OUTSZ | RETS | (d ? DEVICE : 0) | (sz || d ? INSZ : 0); b.order = v % 3;
			for (int i = 0; i < n; i++) { Builder c = prefix(i == n - 1 ? v : 1 + (i + v) % 4); c.end(); b.ch.push_back({c.w.v, c.out.size()}); }
			e.exec(b.mk());
		}
	});
	if (FAKE) ok = ok && ex.family("more than 2^16 chunks", [&](Explorer &e) {
		for (int n : {65535, 65536, 65537, 66000, 131073}) for (int d = 0; d < 2; d++) if (e.mine()) e.exec(Case{"many", {(uint64_t)n, (uint64_t)d}, {}, {}});
	});
	if (FAKE) ok = ok && ex.family("chunks far from each other", [&](Explorer &e) {
		for (uint64_t st : vector<uint64_t>{(1ull << 31) + 8, 1ull << 32, (1ull << 32) + 64, 1ull << 35, (1ull << 35) + 128, 1ull << 36}) for (int out = 0; out < 2; out++) for (int map = 0; map < 2; map++) if (e.mine()) e.exec(Case{"far", {out ? 64 : st, out ? st : 128, 3, 0, 0, (uint64_t)map}, {}, {}});
	});
	ok = ok && ex.family("full 64 KiB chunks", [&](Explorer &e) {
		for (int v = 0; v < (FAKE ? 12 : 4); v++) if (e.mine()) {
			Builder c; uint64_t f[4] = {0, 0, 0, 0}; size_t i = 0;
			while (c.out.size() < 65536) { switch (v % 4) { case 0: c.d8(distinct_word(i)); break; case 1: if (i % 3) c.d8(distinct_word(i)); else c.zeros(); break; case 2: if (i % 5 == 4) { f[0] = i % std::min<size_t>(256, c.out.size() / 8); c.tpl(25, f); } else c.d8(distinct_word(i / 7)); break; default: if (!i || i % 9) c.d8(distinct_word(i)); else c.repeat(std::min<size_t>(i % 64, (65536 - c.out.size()) / 8 - 1)); } i++; }
			c.end(); Batch b; b.chunk = 65536; b.stride = 131072; int n = 1 + v / 4; b.order = v % 3; for (int k = 0; k < n; k++) b.ch.push_back({c.w.v, 65536}); e.exec(b.mk());
		}
	});
	return ok;
}

static int O02() {
	bool ok = true; int lv = DEEP ? 2 : 1;
	ok = ok && ex.family("token sequences incl. invalid ones, any order, in batches", [&](Explorer &e) {
		for (int p : {0, 1, 2, 64, 65, 256, 257}) { Batcher B(e, p * 8 + 1280, 4608, FAKE ? 50 : 400, true); walk(e, prefix(p), 1, {FAKE ? 2 : 0}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, (c.out.size() + 7) & ~7ull); B.add(c.w.v, c.out.size() + 600 > B.b.chunk ? B.b.chunk : c.out.size() + 600); }); }
		Batcher B(e, 1664, 640, FAKE ? 50 : 1000, true);
		if (FAKE) { for (int p : {0, 1}) walk(e, prefix(p), 2, lv == 1 ? vector<int>{1, 0} : vector<int>{1, 1}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); B.add(c.w.v, c.out.size() + 600); });
		walk(e, prefix(0), 3, lv == 1 ? vector<int>{0, 0, 0} : vector<int>{1, 0, 0}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, std::min<size_t>(1664, c.out.size())); }); }
		else walk(e, prefix(0), 2, {0, 0}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); });
	});
	ok = ok && ex.family("unknown operations with every amount of operand bits", [&](Explorer &e) {
		Batcher B(e, 512, 256, FAKE ? 60 : 600, true);
		for (int op : {26, 29, 31}) for (int p = 0; p < 4; p++) for (int n = 0; n < 80; n++) for (int z = 0; z < 2; z++) if (e.mine()) { Builder b = prefix(p); b.raw(op, 5); for (int i = 0; i < n; i++) b.raw(z && i % 8 == 7, 1); b.end(); B.add(b.w.v, 512); }
	});
	if (!FAKE) return ok;
	auto leafs = [&](Explorer &e, int level, const std::function<void(const bytes &, size_t)> &cb) {
		LeafCb leaf = [&](Explorer &, Builder &b) { Builder c = b; c.end(); cb(c.w.v, c.out.size()); };
		if (e.mine()) { Builder b; leaf(e, b); }
		walk(e, prefix(0), 1, {1}, true, true, leaf);
		walk(e, prefix(1), 1, {level > 1 ? 1 : 0}, true, true, leaf);
		walk(e, prefix(64), 1, {0}, true, true, leaf);
		if (level > 0) walk(e, prefix(1), 2, {0, 0}, true, true, leaf);
	};
	ok = ok && ex.family("token sequences incl. invalid ones, alone in exactly fitting buffers", [&](Explorer &e) {
		for (int p : {0, 1, 2, 64, 65, 256, 257}) walk(e, prefix(p), 1, {1}, true, true, [&](Explorer &e, Builder &b) { Builder c = b; c.end(); e.exec(single(c.w.v, c.out.size(), CH, ST).mk()); e.exec(single(c.w.v, std::max<size_t>(c.out.size(), 8) - 8, CH, ST).mk()); });
		walk(e, prefix(1), 2, {1, 0}, true, true, [&](Explorer &e, Builder &b) { Builder c = b; c.end(); e.exec(single(c.w.v, c.out.size(), CH, ST).mk()); });
	});
	ok = ok && ex.family("every truncation, exactly fitting buffers", [&](Explorer &e) {
		leafs(e, lv, [&](const bytes &s, size_t o) { for (size_t n = 1; n < s.size(); n++) { e.exec(single(bytes(s.begin(), s.begin() + n), o, CH, ST).mk()); if (n > 64 && n + 64 < s.size()) n += 7; } });
	});
	ok = ok && ex.family("every capacity, exactly fitting buffers", [&](Explorer &e) {
		leafs(e, lv, [&](const bytes &s, size_t o) { for (size_t n = 0; n <= o + 9; n++) { e.exec(single(s, n, CH, ST).mk()); if (n > 64 && n + 64 < o) n += 31; } });
	});
	ok = ok && ex.family("every truncation and capacity in batches", [&](Explorer &e) {
		Batcher B(e, 1664, 1664, 60, true);
		leafs(e, 0, [&](const bytes &s, size_t o) { for (size_t n = 1; n < s.size(); n += s.size() > 100 ? 17 : 1) B.add(bytes(s.begin(), s.begin() + n), std::min<size_t>(1664, o)); for (size_t n = 0; n <= o && n < 1664; n += o > 100 ? 13 : 1) B.add(s, n); });
	});
	ok = ok && ex.family("every value of every byte", [&](Explorer &e) {
		int cnt = 0; Batcher B(e, 1664, 128, 128, true);
		leafs(e, 0, [&](const bytes &s0, size_t o) {
			if (s0.size() > 40 || (cnt++ % (lv == 2 ? 1 : 3))) return;
			bytes s = s0; for (size_t k = 0; k < s.size(); k++) { for (int v = 0; v < 256; v++) { if (v == s0[k]) continue; s[k] = v; B.add(s, std::min<size_t>(1664, o + 16)); } s[k] = s0[k]; }
		});
	});
	ok = ok && ex.family("all leading bit patterns", [&](Explorer &e) {
		int bits = DEEP ? 23 : 19; Batcher B(e, 1104, 16, 256, false);
		for (uint32_t v = 0; v < (1u << bits); v++) for (int f = 0; f < 2; f++) if (e.mine()) {
			ref::BitWriter w; w.put(v, bits); w.put(f ? ~0ull : 0, 64); w.put(f ? ~0ull : 0, 46 - bits % 8);
			bytes s = w.v; s.resize(16); B.add(s, 1104);
		}
	});
	ok = ok && ex.family("sizes omitted: malformed and unterminated streams", [&](Explorer &e) {
		for (int fl : vector<int>{RETS, RETS | OUTSZ, RETS | INSZ}) for (int tight = 0; tight < 2; tight++) for (int fill = 0; fill < 2; fill++) {
			auto go = [&](const bytes &s) { Batch b; b.chunk = 64; b.stride = 80; b.flags = fl | (fill ? OTHERFILL : 0); bytes t = s; if (t.size() > 80) t.resize(80); b.ch = {{t, 64}}; if (!tight) b.ch.push_back({t, 64}); e.exec(b.mk()); };
			walk(e, prefix(0), 1, {1}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); go(c.w.v); go(b.w.v); });
			walk(e, prefix(1), 2, {0, 0}, true, true, [&](Explorer &, Builder &b) { Builder c = b; c.end(); go(c.w.v); if (e.counter % 3 == 0) go(b.w.v); });
			for (int n = 0; n < 14; n++) if (e.mine()) { Builder b; for (int i = 0; i < n; i++) b.d8(distinct_word(i)); go(b.w.v); Builder c; for (int i = 0; i < n; i++) c.zeros(); c.end(); go(c.w.v); if (n > 1) { Builder d = prefix(1); for (int i = 1; i < n; i++) d.repeat(63); go(d.w.v); } }
		}
	});
	return ok;
}

// chunk contents of the MAYBE / INPLACE formats
static vector<bytes> mkinds(size_t chunk, bool all) {
	vector<bytes> v; auto fill = [&](int seed) { bytes b(chunk); for (size_t i = 0; i < chunk; i++) b[i] = (i * 37 + seed * 11 + (i >> 3)) ^ 0x42; return b; };
	auto cs = [&](int words, int rep) { Builder b = prefix(words); if (rep) b.repeat(rep - 1); b.end(); return b.w.v; };
	size_t w = chunk / 8;
	v.push_back(fill(1));                                                                     // stored
	{ auto s = cs(2, w - 2); v.push_back(marked(chunk, s, s.size())); }                       // compressed, full
	v.push_back(marked(chunk, {}, 0, 0x77));                                                  // skipped
	{ auto s = cs(3, 0); s[0] |= 0xf8; v.push_back(marked(chunk, s, s.size())); }             // compressed, malformed
	{ bytes b = fill(2); memcpy(b.data(), LIB842_COMPRESSED_CHUNK_MARKER, 15); v.push_back(b); } // nearly the marker
	{ bytes b = fill(3); memcpy(b.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16); uint64_t x = chunk * 3; memcpy(b.data() + 16, &x, 8); v.push_back(b); } // impossible size
	if (all) { Builder b; b.end(); v.push_back(marked(chunk, b.w.v, b.w.v.size())); }         // empty stream
	return v;
}
static int O03() {
	bool ok = true;
	auto K = mkinds(128, true);
	ok = ok && ex.family("every combination of chunk kinds", [&](Explorer &e) {
		int N = DEEP ? 5 : FAKE ? 4 : 3;
		for (int d = 0; d < 2; d++) for (int n = 1; n <= N; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= K.size(); for (size_t s = 0; s < tot; s++) for (int f = 0; f < (FAKE ? 2 : 1); f++) if (e.mine()) { Batch b; b.fmt = 1; b.chunk = b.stride = 128; b.order = s % 3; b.flags |= (d ? DEVICE : 0) | (f ? OTHERFILL : 0); if (d) b.inoff = b.outoff = 8 * (s % 3); size_t x = s; for (int i = 0; i < n; i++) { if (!FAKE && x % K.size() == 5) x++; b.ch.push_back({K[x % K.size()], 128}); x /= K.size(); } e.exec(b.mk()); } }
	});
	ok = ok && ex.family("every single-bit deviation of the marker", [&](Explorer &e) {
		for (int k = 0; k < 7; k++) for (int bit = 0; bit < 128; bit++) if (e.mine()) { Batch b; b.fmt = 1; b.chunk = b.stride = 128; bytes c = K[k == 5 ? 1 : k]; memcpy(c.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16); c[bit / 8] ^= 1 << bit % 8; b.ch = {{K[1], 128}, {c, 128}, {K[0], 128}}; e.exec(b.mk()); }
	});
	ok = ok && ex.family("every marker byte value", [&](Explorer &e) {
		if (FAKE) for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) if (e.mine()) { Batch b; b.fmt = 1; b.chunk = b.stride = 128; bytes c = K[1]; c[i] = v; b.ch = {{c, 128}}; e.exec(b.mk()); }
	});
	ok = ok && ex.family("every compressed size", [&](Explorer &e) {
		vector<uint64_t> S; for (uint64_t s = 0; s <= 300; s++) S.push_back(s);
		for (uint64_t s : vector<uint64_t>{1ull << 16, (1ull << 31) - 8, 1ull << 31, 1ull << 32, (1ull << 32) + 64, 1ull << 40, (1ull << 63) - 8, 1ull << 63, (uint64_t)-8, (uint64_t)-64, (uint64_t)-128, (uint64_t)-136, ~0ull}) S.push_back(s);
		if (!FAKE) { S.clear(); for (int i = 0; i <= 104; i += 8) S.push_back(i); }
		for (int d = 0; d < 2; d++) for (auto s : S) for (int where = 0; where < 3; where++) if (e.mine()) {
			Batch b; b.fmt = 1; b.chunk = b.stride = 128; b.flags |= d ? DEVICE : 0;
			bytes c = marked(128, {}, s); // the area after the header: every sensible stream start is decodable
			Builder w = prefix(4); w.end(); std::copy(w.w.v.begin(), w.w.v.end(), c.end() - w.w.v.size());
			for (int i = 0; i < 3; i++) b.ch.push_back({i == where ? c : K[i % 2], 128}); e.exec(b.mk());
			bytes z = marked(128, {}, s, 0); b.ch[where].in = z; e.exec(b.mk());
		}
	});
	ok = ok && ex.family("compressed chunks of every length at every fill level", [&](Explorer &e) {
		for (size_t chunk : {128, 512, 4096}) { if (!FAKE && chunk != 512) continue; for (size_t lit = 0; lit * 69 / 8 + 64 < chunk; lit++) for (size_t rep = 0; lit + rep <= chunk / 8 && rep <= 64; rep += rep < 4 ? 1 : 15) if (e.mine()) {
			Builder w = prefix(lit); if (rep && lit) w.repeat(rep - 1); w.end(); if (w.w.v.size() > chunk - 24) continue;
			Batch b; b.fmt = 1; b.chunk = b.stride = chunk; b.ch = {{marked(chunk, w.w.v, w.w.v.size()), chunk}, {marked(chunk, w.w.v, w.w.v.size()), w.out.size()}, {mkinds(chunk, false)[0], chunk}}; if (w.out.size() >= 8) b.ch.push_back({b.ch[0].in, w.out.size() - 8}); e.exec(b.mk());
		} }
	});
	ok = ok && ex.family("every capacity", [&](Explorer &e) {
		for (int d = 0; d < 2; d++) for (size_t k = 0; k < K.size(); k++) for (size_t cap = 0; cap <= 128; cap++) if (e.mine()) { if (!FAKE && (k == 5 || cap % 32)) continue; Batch b; b.fmt = 1; b.chunk = b.stride = 128; b.flags |= d ? DEVICE : 0; b.ch = {{K[k], cap}, {K[0], 128}}; e.exec(b.mk()); }
	});
	ok = ok && ex.family("chunk sizes", [&](Explorer &e) {
		for (size_t chunk = 24; chunk <= (FAKE ? 200 : 40); chunk += 8) for (int d = 0; d < 2; d++) for (int v = 0; v < 6; v++) if (e.mine()) {
			Batch b; b.fmt = 1; b.chunk = b.stride = chunk; b.flags |= d ? DEVICE : 0; vector<bytes> M = {mkinds(128, false)[0], marked(chunk, {}, 0, 0x77)}; M[0].resize(chunk);
			Builder w = prefix(1); w.repeat(chunk / 8 - 2); w.end(); if (w.w.v.size() <= chunk - 24) M.push_back(marked(chunk, w.w.v, w.w.v.size()));
			for (int i = 0; i < 4; i++) b.ch.push_back({M[(v >> (i % 3) & 1) + (i == v % 4) < M.size() ? (v >> (i % 3) & 1) + (i == v % 4) : 0], chunk}); e.exec(b.mk());
		}
	});
	ok = ok && ex.family("buffers that are not allowed", [&](Explorer &e) {
		for (int w = 0; w < 3; w++) if (e.mine()) e.exec(Case{"reject", {1, 0, (uint64_t)w}, {}, {}});
		if (e.mine()) e.exec(Case{"reject", {0, 0, 0}, {}, {}});
	});
	return ok;
}

static int O04() {
	bool ok = true;
	auto K = kinds(); auto M = mkinds(128, false);
	ok = ok && ex.family("every subset of optional arguments x every permutation x interface", [&](Explorer &e) {
		for (int fmt = 0; fmt < 3; fmt++) for (int n = 1; n <= (FAKE ? DEEP ? 6 : 5 : 3); n++) {
			vector<size_t> p(n); for (int i = 0; i < n; i++) p[i] = i;
			do for (int fl = 0; fl < 64; fl++) {
				if (fl & TIGHT) continue;
				if (!(fl & MAP) && !std::is_sorted(p.begin(), p.end())) continue;
				if (!e.mine()) continue;
				Batch b; b.fmt = fmt; b.flags = fl; b.perm = p; b.order = fl % 3;
				if (fmt == 0) { b.chunk = 72; b.stride = 136; } else b.chunk = b.stride = 128;
				if (fl & DEVICE) { b.inoff = 8 * (fl % 5); b.outoff = fmt == 2 ? b.inoff : 8 * ((fl + n) % 7); }
				for (int i = 0; i < n; i++) {
					if (fmt == 0) { Ch c = K[(i + (fl & 7)) % ((fl & INSZ) ? 8 : 6)]; b.ch.push_back(c); }
					else { size_t k = (i + (fl & 7)) % (FAKE ? 6 : 5); b.ch.push_back({M[k], 128}); }
				}
				e.exec(b.mk());
			} while (std::next_permutation(p.begin(), p.end()));
		}
	});
	ok = ok && ex.family("offsets", [&](Explorer &e) {
		for (int fmt = 0; fmt < 3; fmt++) for (size_t a = 0; a <= (FAKE ? 300 : 32); a += 8) for (size_t o : {0, 8, 64, 128, 136, 4096}) if (e.mine()) {
			Batch b; b.fmt = fmt; b.flags |= DEVICE; b.inoff = fmt == 2 ? o : a; b.outoff = o; if (fmt == 2 && a) continue;
			if (fmt == 0) { b.chunk = 64; b.stride = 128; } else b.chunk = b.stride = 128;
			for (int i = 0; i < 4; i++) b.ch.push_back(fmt == 0 ? K[(i + a / 8) % 8] : Ch{M[(i + a / 8 + o) % 5], 128});
			e.exec(b.mk());
		}
	});
	if (FAKE) ok = ok && ex.family("offsets beyond 4 GiB", [&](Explorer &e) {
		for (uint64_t o : vector<uint64_t>{(1ull << 31) + 8, 1ull << 32, (1ull << 32) + 64, (1ull << 35) + 8, 1ull << 36}) for (int w = 1; w < 4; w++) for (int map = 0; map < 2; map++) if (e.mine()) e.exec(Case{"far", {64, 128, 3, w & 1 ? o : 8, w & 2 ? o : 16, (uint64_t)map}, {}, {}});
	});
	ok = ok && ex.family("shuffle maps of many chunks", [&](Explorer &e) {
		for (int n : {100, 255, 256, 257, 300}) for (int mul : {1, 3, 7, 11, -1}) for (int d = 0; d < 2; d++) if (e.mine()) {
			Batch b; b.chunk = 64; b.stride = 128; b.flags |= MAP | (d ? DEVICE : 0); b.order = mul & 3; vector<bool> used(n);
			for (int i = 0; i < n; i++) { size_t x = mul < 0 ? n - 1 - i : (size_t)i * mul % n; while (used[x]) x = (x + 1) % n; used[x] = true; b.perm.push_back(x); Builder c; c.d8(distinct_word(i)); c.repeat(i % 7); c.end(); b.ch.push_back(i % 17 == 5 ? K[4 + i % 4] : Ch{c.w.v, c.out.size()}); }
			e.exec(b.mk());
		}
	});
	return ok;
}

static int O08() { // in place
	bool ok = true;
	auto K = mkinds(128, true);
	ok = ok && ex.family("every combination of chunk kinds", [&](Explorer &e) {
		int N = DEEP ? 5 : FAKE ? 4 : 3;
		for (int d = 0; d < 2; d++) for (int n = 1; n <= N; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= K.size(); for (size_t s = 0; s < tot; s++) if (e.mine()) { Batch b; b.fmt = 2; b.chunk = b.stride = 128; b.order = s % 3; b.flags |= d ? DEVICE : 0; size_t x = s; for (int i = 0; i < n; i++) { if (!FAKE && x % K.size() == 5) x++; b.ch.push_back({K[x % K.size()], 128}); x /= K.size(); } e.exec(b.mk()); } }
	});
	ok = ok && ex.family("token sequences at the edge of the look-ahead", [&](Explorer &e) {
		// runs and literals in every order: the output gets ahead of the input by every distance
		for (size_t chunk : {128, 256, 512}) for (int a = 0; a < 40; a++) for (int r1 = 0; r1 < 40; r1++) for (int bq = 0; bq < 12; bq++) for (int z = 0; z < 3; z++) {
			size_t words = a + r1 + bq + z; if (words > chunk / 8 || (r1 && !a)) continue;
			if (!e.mine()) continue;
			if (!FAKE && e.counter % 97) continue;
			Builder b; for (int i = 0; i < z; i++) b.zeros(); for (int i = 0; i < a; i++) b.d8(distinct_word(i)); if (r1) b.repeat(r1 - 1); for (int i = 0; i < bq; i++) b.d8(distinct_word(100 + i));
			while (b.out.size() < chunk) b.d8(distinct_word(b.out.size())); b.end();
			if (b.w.v.size() > chunk - 24) continue;
			Batch B; B.fmt = 2; B.chunk = B.stride = chunk; B.ch = {{marked(chunk, b.w.v, b.w.v.size()), chunk}, {mkinds(chunk, false)[0], chunk}}; e.exec(B.mk());
		}
	});
	ok = ok && ex.family("early runs, late literals", [&](Explorer &e) {
		for (size_t chunk : {256, 512, 1024}) for (size_t first = 1; first <= 6; first++) for (size_t run = 0; run <= 64; run++) for (int op = 0; op < 3; op++) if (e.mine()) {
			if (!FAKE && run % 13) continue;
			Builder b = prefix(first); if (op == 0) { if (run) b.repeat(run - 1); } else for (size_t i = 0; i < run; i++) { uint64_t f[4] = {0, 0, 0, 0}; if (op == 1) b.zeros(); else b.tpl(25, f); }
			if (b.out.size() > chunk) continue;
			while (b.out.size() < chunk) b.d8(distinct_word(b.out.size())); b.end();
			if (b.w.v.size() > chunk - 24) continue;
			Batch B; B.fmt = 2; B.chunk = B.stride = chunk; B.ch = {{marked(chunk, b.w.v, b.w.v.size()), chunk}, {mkinds(chunk, false)[0], chunk}}; e.exec(B.mk());
		}
	});
	ok = ok && ex.family("every compressed size", [&](Explorer &e) {
		if (FAKE) for (int d = 0; d < 2; d++) for (uint64_t s = 0; s <= 320; s++) for (int where = 0; where < 2; where++) if (e.mine()) {
			uint64_t sz = s <= 300 ? s : s == 301 ? 1ull << 32 : s == 302 ? 1ull << 63 : 0 - 8 * (s - 302);
			Batch b; b.fmt = 2; b.chunk = b.stride = 128; b.flags |= d ? DEVICE : 0; bytes c = marked(128, {}, sz, 0); Builder w = prefix(4); w.end(); std::copy(w.w.v.begin(), w.w.v.end(), c.end() - w.w.v.size());
			for (int i = 0; i < 2; i++) b.ch.push_back({i == where ? c : K[0], 128}); e.exec(b.mk());
		}
	});
	ok = ok && ex.family("different input and output buffers", [&](Explorer &e) {
		for (int d = 0; d < 2; d++) for (int w = 0; w < 3; w++) if (e.mine()) e.exec(Case{"reject", {2, (uint64_t)d, (uint64_t)w}, {}, {}});
	});
	return ok;
}

static int O06() {
	bool ok = true;
	ok = ok && ex.family("token sequences incl. invalid ones", [&](Explorer &e) {
		LeafCb leaf = [&](Explorer &e, Builder &b) { Builder c = b; c.end(); for (size_t cap : {c.out.size(), c.out.size() + 600, std::max<size_t>(c.out.size(), 8) - 8}) e.exec(Case{"c", {cap}, c.w.v, {}}); };
		if (e.mine()) { Builder b; leaf(e, b); }
		for (int p : {0, 1, 64, 257}) walk(e, prefix(p), 1, {FAKE ? 1 : 0}, true, true, leaf);
		if (FAKE) walk(e, prefix(1), 2, DEEP ? vector<int>{1, 0} : vector<int>{0, 0}, true, true, leaf);
	});
	ok = ok && ex.family("every truncation and capacity", [&](Explorer &e) {
		if (FAKE) walk(e, prefix(2), 1, {0}, true, true, [&](Explorer &e, Builder &b) { Builder c = b; c.end(); for (size_t n = 0; n < c.w.v.size(); n++) e.exec(Case{"c", {c.out.size()}, bytes(c.w.v.begin(), c.w.v.begin() + n), {}}); for (size_t n = 0; n < c.out.size(); n += c.out.size() > 64 ? 7 : 1) e.exec(Case{"c", {n}, c.w.v, {}}); });
	});
	ok = ok && ex.family("every compressed length around the internal stride and chunk size", [&](Explorer &e) {
		vector<int> W; for (int base : {7595, 7596, 7599, 8190, 11590, 11594, 11600, 16384, 23184, 23188, 23195, 34779, 34784, 50000}) for (int d = FAKE ? -3 : 0; d <= (FAKE ? 3 : 0); d++) W.push_back(base + d);
		for (int w : W) for (int v = 0; v < 3; v++) for (int sp = 0; sp < 2; sp++) if (e.mine()) {
			Builder b; for (int i = 0; i < w; i++) { if (v == 1 && i % 1000 == 999) b.repeat(5); else if (v == 2 && i % 500 == 7) b.zeros(); else b.d8(distinct_word(i) ^ (uint64_t)i << 17); } b.end();
			e.exec(Case{"c", {b.out.size() + (sp ? 64 : 0)}, b.w.v, {}});
			if (sp) e.exec(Case{"c", {b.out.size() - 8}, b.w.v, {}});
		}
	});
	ok = ok && ex.family("highly compressed data larger than the internal chunk size", [&](Explorer &e) {
		for (int r = 100; r <= 1400; r += FAKE ? 13 : 130) if (e.mine()) { Builder b; for (int i = 0; i < r; i++) { if (i % 2 == 0) b.d8(distinct_word(i)); else b.repeat(63); } b.end(); e.exec(Case{"c", {b.out.size()}, b.w.v, {}}); e.exec(Case{"c", {b.out.size() - 8}, b.w.v, {}}); }
	});
	return ok;
}

#ifndef REAL_CL
#include "env.inc"
#endif

static bool run_case(const Case &c, string &why) {
	if (c.kind == "batch") return run_batch(c, why);
	if (c.kind == "c") return run_c(c, why);
	if (c.kind == "many") return run_many(c, why);
	if (c.kind == "reject") return run_reject(c, why);
#ifndef REAL_CL
	if (c.kind == "far") return run_far(c, why);
	return run_env(c, why);
#endif
	printf("unknown case kind %s\n", c.kind.c_str()); fflush(stdout); _exit(90);
}

int main(int argc, char **argv) {
	if (argc < 4) { fprintf(stderr, "usage: %s PROP quick|thorough RESULT.json | PROP replay FILE\n", argv[0]); return 2; }
	std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case;
	DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp";
	const char *bd = getenv("MC_BUILD"); string B = bd ? bd : "/tmp/ocl-build";
	iohook::scratch = "/tmp/mc-ocl-" + num(getpid()); // removed at the end; the program cache is redirected into it
	(void)!system(("mkdir -p '" + B + "/kern' '" + iohook::scratch + "'").c_str());
#ifndef REAL_CL
	fakecl::kerndir = B + "/kern";
#else
	setenv("POCL_MAX_PTHREAD_COUNT", "2", 1); setenv("POCL_AFFINITY", "0", 1);
	ex.workers = 4; ex.hang_s = 120;
#endif
	ex.set_bits = DEEP ? 26 : 24;
	pid_t me = getpid();
	static string scr = iohook::scratch; static pid_t owner = me;
	atexit([] { if (getpid() == owner) (void)!system(("rm -rf '" + scr + "'").c_str()); });
	std::map<string, int (*)()> P = {{"O01", O01}, {"O02", O02}, {"O03", O03}, {"O04", O04}, {"O06", O06}, {"O08", O08}};
#ifndef REAL_CL
	P["O05"] = O05; P["O07"] = O07; P["O09"] = O09;
#endif
	if (!P.count(ex.property)) { fprintf(stderr, "unknown property\n"); return 2; }
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init();
	P[ex.property]();
	ex.write_result(argv[3]);
	return ex.failed ? 1 : 0;
}
