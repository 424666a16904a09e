// Controlled scheduler for the real stream code. All "threads" are fibers of one OS thread; pthread_*, the
// TSan instrumentation hooks and the allocator are provided here. Every scheduling decision at a visible
// operation is a choice; the explorer enumerates all choice sequences (stateless search) with a bound on
// preemptions and spurious wake-ups, pruning executions that reach an already explored happens-before state.
#include "../common/mc.hpp"
#include "mcrt.h"
#include <cstdarg>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/single_threaded.h>
#include <algorithm>
#include <new>
#include <set>

using mc::mix;
#define EXPORT extern "C" __attribute__((visibility("default")))
extern "C" void *__cxa_get_globals();

static mc::Explorer ex;

// ------------------------------------------------------------------ model threads
enum St { UNUSED, READY, RUNNING, DONE };
enum Op { O_NONE, O_RUN, O_LOCK, O_CONDWAIT, O_RELOCK, O_JOIN, O_EVWAIT, O_ATOMIC, O_NOTIFY, O_CREATE, O_ACCESS, O_YIELD, O_ONCE, O_RDLOCK, O_WRLOCK, O_SEM };
struct Th {
	int id; St st; Op op; const void *obj; const void *obj2; // pending operation
	bool timed, timedout;
	void *sp; uint8_t *stack;
	void *(*fn)(void *); void *arg; void *ret;
	uint32_t vc[MC_MAXT]; uint64_t H;
	char eh[16]; int err;
	uint8_t *tls; struct { void (*f)(void *); void *o; } dtors[16]; int ndtors; // thread_local variables of the executable
	bool detached, joined, low; // low: yielded, scheduled only when nothing else can run
};
#ifndef MC_STK
#define MC_STK (128 * 1024)
#endif
static const size_t STK = MC_STK;
static uint8_t *tls_lo, *tls_init; static size_t tls_n, tls_img_n; static const uint8_t *tls_img;
static struct { uintptr_t lo; size_t n; } tlsr[16]; static int ntlsr; // of every module
static Th T[MC_MAXT]; static int NT; static Th *cur; static bool in_model = false;
static void *explorer_sp;

struct Obj { // per address state of synchronisation objects
	const void *addr; uint32_t epoch; uint64_t w, r; uint32_t vc[MC_MAXT];
	int owner;  // mutex: tid or -1; once: 0/1/2 state
	int readers; bool isCond; int nw; int8_t waiters[MC_MAXT]; uint8_t kind;
	long val;
};
static const unsigned OBJ_N = 1 << 12;
static Obj objs[OBJ_N]; static uint32_t epoch = 0; static Obj *objlist[OBJ_N]; static int nobj;
static Obj *obj(const void *a) {
	size_t i = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 52;
	for (unsigned k = 0; k < OBJ_N; k++, i = (i + 1) & (OBJ_N - 1)) {
		Obj &o = objs[i];
		if (o.epoch != epoch) { memset(&o, 0, sizeof o); o.addr = a; o.epoch = epoch; o.owner = -1; if (nobj < (int)OBJ_N) objlist[nobj++] = &o; return &o; }
		if (o.addr == a) return &o;
	}
	fprintf(stdout, "too many synchronisation objects\n"); fflush(stdout); _exit(90);
}

// ------------------------------------------------------------------ configuration of the running execution
static int preempt_bound, spur_bound; static int preempts, spurs;
static std::string cls_mask; static bool race_is_violation = false, leak_is_violation = false;
static uint64_t steps; static const uint64_t MAX_STEPS = 20000;
static uint64_t nexec_trans;

// choices
static const int MAXC = 4000;
static uint8_t pre[MAXC], precnt[MAXC]; static int npre;   // prefix to follow (0 afterwards)
static uint8_t chosen[MAXC], chcnt[MAXC]; static int nch;
static uint8_t *case_a, *case_b;                           // live copy in the shared slot
static struct { int first, second; } alts[MAXC]; static int nalts; // (position, number of options) of new choice points; no allocation while a model thread runs
static bool replaying = false, aborted = false, check_counts = true;

[[noreturn]] static void switch_to_explorer();
[[noreturn]] static void violation(const char *fmt, ...) {
	char b[1600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (ex.me >= 0) snprintf(ex.slots[ex.me].why, sizeof ex.slots[ex.me].why, "%s", b);
	if (replaying) { printf("violated: %s\n", b); fflush(stdout); }
	_exit(77);
}

// racy instructions promoted to scheduling points (shared between workers)
struct Racy { std::atomic<int> n; uintptr_t pc[64]; };
static Racy *racy; static int nracy; // the first nracy are active in the running family
static uintptr_t exe_base;
static uint8_t *snap; static uint8_t *snap_lo; static size_t snap_n; // the data section of the executable

// ------------------------------------------------------------------ allocator
static uint8_t *small_base, *big_base; static const size_t SMALL = 8 << 20, BIG = 1ull << 30;
static size_t small_used, big_used;
static uint8_t *small_sh; // state per 16 bytes: 0 unallocated, 1 live, 2 freed
struct AllocRec { uint8_t *p; size_t n; bool live; };
static AllocRec *allocs; static int nallocs; static long live_allocs;
static const int MAXA = 65536;
static bool in_small(const void *p) { return (const uint8_t *)p >= small_base && (const uint8_t *)p < small_base + SMALL; }
static bool in_big(const void *p) { return (const uint8_t *)p >= big_base && (const uint8_t *)p < big_base + BIG; }
static void *arena_alloc(size_t n, size_t al) {
	if (al < 16) al = 16;
	uint8_t *p;
	if (nallocs >= MAXA) { fprintf(stdout, "too many allocations\n"); fflush(stdout); _exit(90); }
	if (n >= 16384) {
		size_t a = al < 4096 ? 4096 : al;
		big_used = (big_used + a - 1) / a * a + 4096; big_used = (big_used + a - 1) / a * a;
		p = big_base + big_used; big_used += (n + 4095) & ~4095ull;
		if (big_used > BIG) { fprintf(stdout, "arena exhausted\n"); fflush(stdout); _exit(90); }
	} else {
		small_used = (small_used + al - 1) / al * al; p = small_base + small_used;
		size_t r = (n + 15) & ~15ull; if (!r) r = 16;
		small_used += r + 16;
		if (small_used > SMALL) { fprintf(stdout, "arena exhausted\n"); fflush(stdout); _exit(90); }
		memset(small_sh + (p - small_base) / 16, 1, r / 16);
		memset(p, 0xA7, n);
	}
	allocs[nallocs++] = {p, n, true}; live_allocs++;
	return p;
}
static AllocRec *find_alloc(const void *p) {
	for (int i = nallocs - 1; i >= 0; i--) if ((uint8_t *)p >= allocs[i].p && (uint8_t *)p < allocs[i].p + (allocs[i].n ? allocs[i].n : 1)) return &allocs[i];
	return nullptr;
}
static void arena_free(void *p) {
	AllocRec *a = nullptr;
	for (int i = nallocs - 1; i >= 0; i--) if (allocs[i].p == p) { a = &allocs[i]; break; }
	if (!in_model) { if (a) a->live = false; return; }
	if (!a) violation("free of an address that was not allocated");
	if (!a->live) violation("memory freed twice");
	// synchronisation objects inside must not be in use
	for (int i = 0; i < nobj; i++) {
		Obj &o = *objlist[i];
		if ((uint8_t *)o.addr < a->p || (uint8_t *)o.addr >= a->p + a->n) continue;
		if (o.kind == 1 && o.owner >= 0) violation("memory with a locked mutex freed");
		for (int t = 0; t < NT; t++) if (T[t].st == READY && (T[t].obj == o.addr || T[t].obj2 == o.addr) && (T[t].op == O_LOCK || T[t].op == O_CONDWAIT || T[t].op == O_RELOCK)) violation("memory with a mutex or condition variable in use by thread %d freed", t);
	}
	a->live = false; live_allocs--;
	if (in_small(p)) { size_t r = (a->n + 15) & ~15ull; if (!r) r = 16; memset(small_sh + (a->p - small_base) / 16, 2, r / 16); }
}
static void arena_reset() {
	memset(small_sh, 0, (small_used + 32) / 16 + 1);
	small_used = 64; big_used = 4096; nallocs = 0; live_allocs = 0;
}

// failing allocations: the k-th one of a thread since the fault was armed, or all from it on. Counting per thread keeps a thread's
// behaviour a function of its own history.
static int fault_tid = -1; static long fault_at, fault_n, fault_fired; static bool fault_sticky, fault_paused;
static long fault_thread = -1; // number of threads that can still be created
EXPORT void mc_fault_alloc(int tid, long k, bool sticky) { fault_tid = tid; fault_at = k; fault_n = 0; fault_sticky = sticky; fault_paused = false; }
EXPORT void mc_fault_thread(long k) { fault_thread = k; }
EXPORT void mc_fault_pause(bool p) { fault_paused = p; }
EXPORT long mc_fault_fired() { return fault_fired; }
static bool alloc_fails() {
	if (fault_tid < 0 || fault_paused || cur->id != fault_tid) return false;
	long k = fault_n++; if (!(k == fault_at || (fault_sticky && k > fault_at))) return false;
	fault_fired++; cur->H = mix(cur->H, 0xfa); return true;
}
static void *arena_try(size_t n, size_t al) { return alloc_fails() ? nullptr : arena_alloc(n, al); }
static void *arena_throw(size_t n, size_t al) { if (alloc_fails()) throw std::bad_alloc(); return arena_alloc(n, al); }

static pthread_t (*real_self)();
EXPORT void *__wrap_malloc(size_t n) { return in_model ? arena_try(n, 16) : malloc(n); }
EXPORT void *__wrap_calloc(size_t a, size_t b) { if (!in_model) return calloc(a, b); void *p = arena_try(a * b, 16); if (p) memset(p, 0, a * b); return p; }
EXPORT void *__wrap_aligned_alloc(size_t al, size_t n) { return in_model ? arena_try(n, al) : aligned_alloc(al, n); }
EXPORT int __wrap_posix_memalign(void **p, size_t al, size_t n) { if (!in_model) return posix_memalign(p, al, n); void *q = arena_try(n, al); if (!q) return ENOMEM; *p = q; return 0; }
EXPORT void __wrap_free(void *p) { if (!p) return; if (in_small(p) || in_big(p)) arena_free(p); else free(p); }
EXPORT void *__wrap_realloc(void *p, size_t n) {
	if (!in_model && !in_small(p) && !in_big(p)) return realloc(p, n);
	void *q = __wrap_malloc(n); if (p && q) { AllocRec *a = find_alloc(p); memcpy(q, p, std::min(n, a ? a->n : n)); __wrap_free(p); } return q;
}
#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { void *p = in_model ? arena_throw(n, 16) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
VIS void *operator new[](size_t n) { return operator new(n); }
VIS void *operator new(size_t n, const std::nothrow_t &) noexcept { return in_model ? arena_try(n, 16) : malloc(n ? n : 1); }
VIS void *operator new[](size_t n, const std::nothrow_t &) noexcept { return in_model ? arena_try(n, 16) : malloc(n ? n : 1); }
VIS void *operator new(size_t n, std::align_val_t a) { return in_model ? arena_throw(n, (size_t)a) : aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
VIS void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
VIS void operator delete(void *p) noexcept { __wrap_free(p); }
VIS void operator delete[](void *p) noexcept { __wrap_free(p); }
VIS void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
VIS void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
VIS void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
VIS void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------ context switch
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
.globl mc_trampoline
.hidden mc_trampoline
mc_trampoline:
	.cfi_startproc
	.cfi_undefined rip
	call mc_fiber_main
	ud2
	.cfi_endproc
)");
extern "C" { __attribute__((visibility("hidden"))) void mc_switch(void **from, void *to); void mc_trampoline(); void mc_fiber_main(); }
static void sched_exit();
static void run_tls_dtors() { while (cur->ndtors) { auto d = cur->dtors[--cur->ndtors]; d.f(d.o); } }
EXPORT int __cxa_thread_atexit(void (*f)(void *), void *o, void *) noexcept {
	if (!in_model) return 0;
	if (cur->ndtors >= 16) { fprintf(stdout, "too many thread_local destructors\n"); fflush(stdout); _exit(90); }
	cur->dtors[cur->ndtors++] = {f, o}; return 0;
}
extern "C" __attribute__((visibility("hidden"))) void mc_fiber_main() {
	cur->H = mix(cur->H, 0x57); // starting is an event of its own
	cur->ret = cur->fn(cur->arg);
	run_tls_dtors();
	sched_exit();
	__builtin_trap();
}
static void resume(Th *t) { // switch from the current fiber to t
	Th *me = cur;
	if (me == t) { t->st = RUNNING; return; }
	memcpy(me->eh, __cxa_get_globals(), 16); me->err = errno;
	cur = t; t->st = RUNNING;
	if (tls_n) { memcpy(me->tls, tls_lo, tls_n); memcpy(tls_lo, t->tls, tls_n); }
	memcpy(__cxa_get_globals(), t->eh, 16); errno = t->err;
	mc_switch(&me->sp, t->sp);
}
[[noreturn]] static void switch_to_explorer() { void *dummy; mc_switch(&dummy, explorer_sp); __builtin_trap(); }

// ------------------------------------------------------------------ scheduling
static bool enabled(const Th &t) {
	if (t.st != READY && t.st != RUNNING) return false;
	switch (t.op) {
	case O_LOCK: case O_RELOCK: return obj(t.obj)->owner < 0 || t.timed;
	case O_CONDWAIT: return t.timed;
	case O_JOIN: return T[(int)(intptr_t)t.obj].st == DONE;
	case O_EVWAIT: return obj(t.obj)->owner == 1;
	case O_ONCE: return obj(t.obj)->owner != 1;
	case O_RDLOCK: return obj(t.obj)->owner < 0;
	case O_WRLOCK: return obj(t.obj)->owner < 0 && obj(t.obj)->readers == 0;
	case O_SEM: return obj(t.obj)->val > 0;
	default: return true;
	}
}
static const char *opname(Op o) { static const char *n[] = {"-", "run", "lock", "cond_wait", "relock after cond_wait", "join", "event wait", "atomic", "notify", "create", "access", "yield", "once", "rdlock", "wrlock", "sem"}; return n[o]; }
static uint64_t state_hash() { uint64_t s = 0; for (int i = 0; i < NT; i++) s += mix(i + 1, T[i].H); return s; }
static bool contains(uint64_t h) {
	if (!ex.set) return false;
	if (!h) h = 1;
	size_t mask = (size_t(1) << ex.set_bits) - 1, i = h & mask;
	for (size_t k = 0; k < 64; k++, i = (i + 1) & mask) { uint64_t v = ex.set[i].load(std::memory_order_relaxed); if (v == h) return true; if (!v) return false; }
	return false;
}
static uint64_t scen_salt;
// returns true when this state was explored before with at most the same deviations
static bool visited_before(bool cur_enabled) {
	uint64_t h = mix(state_hash(), scen_salt);
	if (preempt_bound >= 0) h = mix(h, cur_enabled ? cur->id + 1 : 0);
	for (int s = 0; s <= spurs; s++) for (int p = 0; p <= (preempt_bound >= 0 ? preempts : 0); p++) {
		uint64_t k = mix(mix(h, s + 77), p + 1);
		if (s == spurs && p == (preempt_bound >= 0 ? preempts : 0)) return !ex.state(k);
		if (contains(k)) return true;
	}
	return false;
}
static int take_choice(int n, bool cur_enabled) {
	if (nch >= MAXC) violation("the execution makes more than %d scheduling decisions (livelock)", MAXC);
	int c = 0;
	if (nch < npre) {
		c = pre[nch];
		if ((check_counts && precnt[nch] && precnt[nch] != n) || c >= n) { fprintf(stdout, "divergence while replaying a prefix at choice %d: %d options, expected %d\n", nch, n, precnt[nch]); fflush(stdout); _exit(90); }
	} else if (!replaying) {
		if (visited_before(cur_enabled)) { aborted = true; switch_to_explorer(); }
		alts[nalts++] = {nch, n};
	}
	chosen[nch] = c; chcnt[nch] = n;
	if (case_a) { case_a[nch] = c; case_b[nch] = n; }
	nch++;
	return c;
}
static void deadlock() {
	std::string s = "deadlock:";
	for (int i = 0; i < NT; i++) if (T[i].st != DONE) s += " thread " + std::to_string(i) + " blocked in " + opname(T[i].op) + ";";
	violation("%s", s.c_str());
}
static Th *eager_parent; // the creator of the current thread, while that has not reached its first visible operation
// The current thread is about to perform (op,obj); lets the explorer pick who goes next.
static void sched_point(Op op, const void *o, const void *o2 = nullptr, bool yield = false) {
	Th *me = cur;
	me->op = op; me->obj = o; me->obj2 = o2; me->st = READY; me->low = yield;
	if (eager_parent) { Th *p = eager_parent; eager_parent = nullptr; resume(p); me->op = O_RUN; me->low = false; return; }
	for (;;) {
		if (++steps > MAX_STEPS) violation("no termination within %llu steps (livelock)", (unsigned long long)MAX_STEPS);
		struct Cand { int t; bool spur, preempt; } c[2 * MC_MAXT]; int n = 0;
		bool me_en = enabled(*me) && !me->low;
		if (me_en) c[n++] = {me->id, false, false};
		if (!me_en || preempt_bound == -1 || preempts < preempt_bound)
			for (int i = 0; i < NT; i++) if (&T[i] != me && !T[i].low && enabled(T[i])) c[n++] = {i, false, me_en};
		if (n == 0) for (int i = 0; i < NT; i++) if (T[i].low && enabled(T[i])) c[n++] = {i, false, false};
		if (spurs < spur_bound) for (int i = 0; i < NT; i++) if (T[i].st == READY && T[i].op == O_CONDWAIT && !T[i].timed) c[n++] = {i, true, false};
		if (n == 0 || (c[0].spur && spurs == 0 && n > 0 && [&] { for (int k = 0; k < n; k++) if (!c[k].spur) return false; return true; }())) deadlock();
		int k = n == 1 || preempt_bound == -2 ? 0 : take_choice(n, me_en);
		nexec_trans++;
		if (c[k].preempt) preempts++;
		Th *t = &T[c[k].t];
		for (int i = 0; i < NT; i++) if (&T[i] != t) T[i].low = false; // progress elsewhere ends a yield
		if (c[k].spur) { // wakes up without notification: has to take the mutex again
			spurs++;
			Obj *cv = obj(t->obj); int m = 0; for (int i = 0; i < cv->nw; i++) if (cv->waiters[i] != t->id) cv->waiters[m++] = cv->waiters[i]; cv->nw = m;
			t->H = mix(t->H, 0x5b);
			t->op = O_RELOCK; t->obj = t->obj2; t->obj2 = nullptr;
			continue;
		}
		if (t->op == O_CONDWAIT && t->timed) { // time-out
			Obj *cv = obj(t->obj); int m = 0; for (int i = 0; i < cv->nw; i++) if (cv->waiters[i] != t->id) cv->waiters[m++] = cv->waiters[i]; cv->nw = m;
			t->H = mix(t->H, 0x70); t->timed = false; t->timedout = true; t->op = O_RELOCK; t->obj = t->obj2; t->obj2 = nullptr;
			continue;
		}
		resume(t);
		// executed when we are chosen again
		me->op = O_RUN; me->low = false;
		return;
	}
}
static void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MC_MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void check_mem(const void *p, const char *what);
// a write-like event on a synchronisation object
static void ev_w(Obj *o, unsigned k) { cur->H = mix(mix(cur->H, k), mix(o->w, o->r)); o->w = cur->H; o->r = 0; }
static void ev_r(Obj *o, unsigned k) { cur->H = mix(mix(cur->H, k), o->w); o->r += mix(cur->H, 1); }
static void acquire(Obj *o) { vc_join(cur->vc, o->vc); }
static void release(Obj *o) { vc_join(o->vc, cur->vc); cur->vc[cur->id]++; }

static void sched_exit() {
	Th *me = cur;
	me->H = mix(me->H, 0xdead);
	me->st = DONE; me->op = O_NONE;
	if (eager_parent) { Th *p = eager_parent; eager_parent = nullptr; resume(p); __builtin_trap(); }
	// choose somebody else
	for (;;) {
		if (++steps > MAX_STEPS) violation("no termination (livelock)");
		int c[2 * MC_MAXT], sp[2 * MC_MAXT], n = 0, real = 0;
		for (int i = 0; i < NT; i++) if (!T[i].low && enabled(T[i])) { sp[n] = 0; c[n++] = i; real++; }
		if (!n) for (int i = 0; i < NT; i++) if (enabled(T[i])) { sp[n] = 0; c[n++] = i; real++; }
		if (spurs < spur_bound && real) for (int i = 0; i < NT; i++) if (T[i].st == READY && T[i].op == O_CONDWAIT && !T[i].timed) { sp[n] = 1; c[n++] = i; }
		if (!real) deadlock();
		int k = n == 1 || preempt_bound == -2 ? 0 : take_choice(n, false);
		nexec_trans++;
		Th *t = &T[c[k]];
		if (sp[k]) { spurs++; Obj *cv = obj(t->obj); int m = 0; for (int i = 0; i < cv->nw; i++) if (cv->waiters[i] != t->id) cv->waiters[m++] = cv->waiters[i]; cv->nw = m; t->H = mix(t->H, 0x5b); t->op = O_RELOCK; t->obj = t->obj2; t->obj2 = nullptr; continue; }
		if (t->op == O_CONDWAIT && t->timed) { Obj *cv = obj(t->obj); int m = 0; for (int i = 0; i < cv->nw; i++) if (cv->waiters[i] != t->id) cv->waiters[m++] = cv->waiters[i]; cv->nw = m; t->H = mix(t->H, 0x70); t->timed = false; t->timedout = true; t->op = O_RELOCK; t->obj = t->obj2; t->obj2 = nullptr; continue; }
		for (int i = 0; i < NT; i++) T[i].low = false;
		resume(t);
	}
}

// ------------------------------------------------------------------ pthread interposition
static Th *new_thread(void *(*fn)(void *), void *arg) {
	if (NT >= MC_MAXT) { fprintf(stdout, "too many model threads\n"); fflush(stdout); _exit(90); }
	Th *t = &T[NT]; uint8_t *stk = t->stack, *tls = t->tls;
	memset(t, 0, sizeof *t); t->stack = stk; t->tls = tls; if (tls_n) memcpy(tls, tls_init, tls_n); t->id = NT++; t->fn = fn; t->arg = arg; t->st = READY; t->op = O_RUN;
	memset(stk + STK - 16384, 0xA9, 16384); // stale stack contents are never meaningful values
	uint64_t *sp = (uint64_t *)(stk + STK - 64);
	*--sp = 0; *--sp = 0; *--sp = (uint64_t)(void *)mc_trampoline; // rsp % 16 == 0 when the trampoline starts
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->sp = sp;
	return t;
}
EXPORT int pthread_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	if (!in_model) { fprintf(stdout, "pthread_create outside of the model\n"); fflush(stdout); _exit(90); }
	if (!fault_thread) { fault_fired++; cur->H = mix(cur->H, 0xfb); return EAGAIN; }
	if (fault_thread > 0) fault_thread--;
	Th *t = new_thread(fn, arg);
	cur->H = mix(cur->H, 0xc4);
	t->H = mix(cur->H, t->id);
	memcpy(t->vc, cur->vc, sizeof t->vc); t->vc[t->id] = 1; cur->vc[cur->id]++;
	*p = (pthread_t)(t->id + 1);
	// creation and the code before the thread's first visible operation commute with everything: run it at once
	cur->st = READY; cur->op = O_RUN; cur->obj = cur->obj2 = nullptr;
	Th *outer = eager_parent; eager_parent = cur; resume(t); eager_parent = outer;
	return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
	int id = (int)p - 1;
	if (id < 0 || id >= NT || T[id].joined || T[id].detached) violation("join of an invalid or already joined thread");
	if (id == cur->id) violation("a thread joins itself");
	sched_point(O_JOIN, (void *)(intptr_t)id);
	T[id].joined = true;
	vc_join(cur->vc, T[id].vc); cur->H = mix(mix(cur->H, 0x10), T[id].H);
	if (ret) *ret = T[id].ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t p) { T[(int)p - 1].detached = true; return 0; }
EXPORT pthread_t pthread_self() { if (in_model) return (pthread_t)(cur->id + 1); return real_self ? real_self() : (pthread_t)0x1000; }
EXPORT int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

static Obj *mtx(const void *m) { check_mem(m, "mutex"); Obj *o = obj(m); o->kind = 1; return o; }
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { if (in_model) { Obj *o = obj(m); uint64_t w = o->w; int ow = o->owner; (void)w; if (ow >= 0) violation("a locked mutex is initialised"); o->kind = 1; } else memset(m, 0, sizeof *m); return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) { if (in_model && obj(m)->owner >= 0) violation("a locked mutex is destroyed"); return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!in_model) return 0;
	Obj *o = mtx(m);
	if (o->owner == cur->id) {
		if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { o->val++; return 0; }
		violation("thread %d locks a mutex it already holds", cur->id);
	}
	sched_point(O_LOCK, m);
	o->owner = cur->id; ev_w(o, 0x11); acquire(o);
	return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!in_model) return 0;
	Obj *o = mtx(m);
	sched_point(O_ATOMIC, m);
	ev_w(o, 0x12);
	if (o->owner >= 0) return EBUSY;
	o->owner = cur->id; acquire(o);
	return 0;
}
static int mutex_timed(pthread_mutex_t *m) {
	if (!in_model) return 0;
	Obj *o = mtx(m);
	sched_point(O_ATOMIC, m); ev_w(o, 0x13);
	if (o->owner >= 0) return ETIMEDOUT;
	o->owner = cur->id; acquire(o); return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return mutex_timed(m); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return mutex_timed(m); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!in_model) return 0;
	Obj *o = mtx(m);
	if (o->owner != cur->id) violation("thread %d unlocks a mutex it does not hold", cur->id);
	if (o->val > 0) { o->val--; return 0; }
	o->owner = -1; ev_w(o, 0x14); release(o);
	return 0;
}
static Obj *cnd(const void *c) { check_mem(c, "condition variable"); Obj *o = obj(c); o->isCond = true; return o; }
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { if (!in_model) memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c) { if (in_model && obj(c)->nw) violation("a condition variable is destroyed while a thread waits on it"); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	if (!in_model) { fprintf(stdout, "cond_wait outside of the model\n"); fflush(stdout); _exit(90); }
	Obj *cv = cnd(c), *o = mtx(m);
	if (o->owner != cur->id) violation("thread %d waits on a condition variable without holding the mutex", cur->id);
	// the enqueue is ordered with other operations on the condition variable
	sched_point(O_ATOMIC, c);
	ev_w(cv, 0x21);
	cv->waiters[cv->nw++] = cur->id;
	o->owner = -1; ev_w(o, 0x14); release(o);
	cur->timed = timed; cur->timedout = false;
	Th *me = cur;
	sched_point(O_CONDWAIT, c, m);
	// resumed with op RELOCK granted: the mutex is free
	o = obj(m); cnd(c);
	o->owner = me->id; ev_w(o, 0x15); acquire(o);
	bool to = me->timedout; me->timed = me->timedout = false;
	return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cond_wait(c, m, true); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait(c, m, true); }
static void wake(Obj *cv, int idx) {
	Th *w = &T[cv->waiters[idx]];
	for (int i = idx; i + 1 < cv->nw; i++) cv->waiters[i] = cv->waiters[i + 1];
	cv->nw--;
	w->H = mix(mix(w->H, 0x22), cur->H);
	w->op = O_RELOCK; w->obj = w->obj2; w->obj2 = nullptr; w->timed = false;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!in_model) return 0;
	Obj *cv = cnd(c); sched_point(O_NOTIFY, c);
	cnd(c); ev_w(cv, 0x23);
	while (cv->nw) wake(cv, 0);
	return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
	if (!in_model) return 0;
	Obj *cv = cnd(c); sched_point(O_NOTIFY, c);
	cnd(c); ev_w(cv, 0x24);
	if (cv->nw) { int k = cv->nw > 1 && preempt_bound != -2 ? take_choice(cv->nw, true) : 0; cur->H = mix(cur->H, cv->waiters[k] + 9); cv->w = cur->H; wake(cv, k); }
	return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void)) {
	if (!in_model) { if (*(int *)o == 0) { *(int *)o = 2; f(); } return 0; }
	Obj *ob = obj(o); ob->kind = 2;
	sched_point(O_ONCE, o);
	ev_w(ob, 0x30);
	if (ob->owner == 2 || *(volatile int *)o == 2) { acquire(ob); return 0; }
	ob->owner = 1; f(); ob->owner = 2; *(int *)o = 2; ev_w(ob, 0x31); release(ob);
	return 0;
}
// initialisation of function-local static variables
EXPORT int __cxa_guard_acquire(uint64_t *g) {
	if (!in_model) return *(volatile char *)g == 0;
	Obj *o = obj(g); sched_point(O_ONCE, g); ev_w(o, 0x32);
	if (*(volatile char *)g) { acquire(o); return 0; }
	o->owner = 1; return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) noexcept { *(volatile char *)g = 1; if (!in_model) return; Obj *o = obj(g); o->owner = 2; ev_w(o, 0x33); release(o); }
EXPORT void __cxa_guard_abort(uint64_t *g) noexcept { if (!in_model) return; Obj *o = obj(g); o->owner = -1; ev_w(o, 0x34); release(o); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *r) { if (!in_model) return 0; check_mem(r, "rwlock"); Obj *o = obj(r); sched_point(O_RDLOCK, r); o->readers++; ev_w(o, 0x41); acquire(o); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *r) { if (!in_model) return 0; check_mem(r, "rwlock"); Obj *o = obj(r); sched_point(O_WRLOCK, r); o->owner = cur->id; ev_w(o, 0x42); acquire(o); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *r) { if (!in_model) return 0; Obj *o = obj(r); if (o->owner == cur->id) o->owner = -1; else if (o->readers > 0) o->readers--; else violation("unlock of an rwlock that is not held"); ev_w(o, 0x43); release(o); return 0; }
EXPORT int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) { return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXPORT int sem_init(sem_t *s, int, unsigned v) { if (in_model) { Obj *o = obj(s); o->val = v; ev_w(o, 0x50); } return 0; }
EXPORT int sem_post(sem_t *s) { if (!in_model) return 0; Obj *o = obj(s); sched_point(O_ATOMIC, s); o->val++; ev_w(o, 0x51); release(o); return 0; }
EXPORT int sem_wait(sem_t *s) { if (!in_model) return 0; Obj *o = obj(s); sched_point(O_SEM, s); o->val--; ev_w(o, 0x52); acquire(o); return 0; }
EXPORT int sem_destroy(sem_t *) { return 0; }
static void do_yield() { cur->H = mix(cur->H, 0x60); sched_point(O_YIELD, nullptr, nullptr, true); }
EXPORT int sched_yield() { if (in_model) do_yield(); return 0; }
EXPORT int nanosleep(const struct timespec *, struct timespec *) { if (in_model) do_yield(); return 0; }
EXPORT int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (in_model) do_yield(); return 0; }
EXPORT int mc_tid(unsigned long p) { return (int)p - 1; }

// ------------------------------------------------------------------ memory accesses
struct Cell { uintptr_t key; uint32_t epoch; bool split; uint8_t wmask[MC_MAXT], rmask[MC_MAXT]; uint32_t wclk[MC_MAXT], rclk[MC_MAXT]; uintptr_t wpc[MC_MAXT], rpc[MC_MAXT]; };
#ifndef MC_CELLS_LOG
#define MC_CELLS_LOG 15
#endif
static const unsigned CELLS = 1 << MC_CELLS_LOG;
static Cell cells[CELLS]; static unsigned ncells;
struct BigRange { uintptr_t lo, hi; int tid; uint32_t clk; bool w; uintptr_t pc; };
static BigRange ranges[512]; static int nranges;
static void check_mem(const void *p, const char *what) {
	if (in_small(p)) {
		int s = small_sh[((const uint8_t *)p - small_base) / 16];
		if (s != 1) violation("%s: %s of a %s heap block", s == 2 ? "use after free" : "out of bounds", what, s == 2 ? "freed" : "non-existing");
	} else if (in_big(p)) {
		static AllocRec *last; AllocRec *a = last;
		if (!a || a >= allocs + nallocs || (const uint8_t *)p < a->p || (const uint8_t *)p >= a->p + a->n) last = a = find_alloc(p);
		if (!a) violation("out of bounds: %s outside any heap block", what);
		if (!a->live) violation("use after free: %s of a freed heap block", what);
	}
}
static bool is_racy(uintptr_t pc) { for (int i = 0; i < nracy; i++) if (racy->pc[i] == pc) return true; return false; }
[[noreturn]] static void found_race(uintptr_t addr, uintptr_t pc1, int t1, bool w1, uintptr_t pc2, int t2, bool w2) {
	if (race_is_violation) violation("data race: %s by thread %d (pc %#lx) and %s by thread %d (pc %#lx) are not ordered", w1 ? "write" : "read", t1, (long)(pc1 - exe_base), w2 ? "write" : "read", t2, (long)(pc2 - exe_base));
	if (replaying) { printf("divergence: unexpected race\n"); _exit(90); }
	int n = racy->n;
	for (uintptr_t pc : {pc1, pc2}) { bool have = false; for (int i = 0; i < n; i++) have |= racy->pc[i] == pc; if (!have) { int k = racy->n++; if (k >= 60) { fprintf(stdout, "too many racy accesses\n"); fflush(stdout); _exit(90); } racy->pc[k] = pc; } }
	_exit(79); // restart with these accesses as scheduling points
}
static inline bool in_tls(uintptr_t a) { for (int i = 0; i < ntlsr; i++) if (a - tlsr[i].lo < tlsr[i].n) return true; return false; }
static inline bool own_stack(uintptr_t a) { return a - (uintptr_t)cur->stack < STK || in_tls(a); }
static Cell *cell(uintptr_t key) {
	size_t i = key * 0x9E3779B97F4A7C15ull >> (64 - MC_CELLS_LOG);
	for (unsigned k = 0; k < CELLS; k++, i = (i + 1) & (CELLS - 1)) {
		Cell *c = &cells[i];
		if (c->epoch != epoch) { if (++ncells > CELLS / 2) { fprintf(stdout, "too many shadow cells\n"); fflush(stdout); _exit(90); } memset(c, 0, sizeof *c); c->key = key; c->epoch = epoch; return c; }
		if (c->key == key) return c;
	}
	return nullptr;
}
static const uintptr_t BYTE = 1ull << 63; // cells of single bytes
// A cell covers 8 bytes and keeps each thread's latest write and read. Once a thread has accessed different bytes of it at
// different times, these are kept apart.
static void access_cell(uintptr_t key, uint8_t mask, bool w, uintptr_t pc) {
	Cell *c = cell(key); int me = cur->id; uint32_t now = cur->vc[me];
	if (!c->split) {
		uint32_t &clk = w ? c->wclk[me] : c->rclk[me]; uint8_t &m = w ? c->wmask[me] : c->rmask[me];
		if (clk == now && (m & mask) == mask) return; // checked before, and later accesses of others were checked against that
		for (int t = 0; t < NT; t++) {
			if (t == me) continue;
			if ((c->wmask[t] & mask) && c->wclk[t] > cur->vc[t]) found_race(key << 3, c->wpc[t], t, true, pc, me, w);
			if (w && (c->rmask[t] & mask) && c->rclk[t] > cur->vc[t]) found_race(key << 3, c->rpc[t], t, false, pc, me, true);
		}
		if (clk == now || !(m & ~mask)) { m = clk == now ? m | mask : mask; clk = now; (w ? c->wpc : c->rpc)[me] = pc; return; }
		c->split = true;
		for (int b = 0; b < 8; b++) {
			Cell *d = cell(key << 3 | b | BYTE);
			for (int t = 0; t < NT; t++) {
				if (c->wmask[t] >> b & 1) { d->wmask[t] = 1; d->wclk[t] = c->wclk[t]; d->wpc[t] = c->wpc[t]; }
				if (c->rmask[t] >> b & 1) { d->rmask[t] = 1; d->rclk[t] = c->rclk[t]; d->rpc[t] = c->rpc[t]; }
			}
		}
	}
	for (int b = 0; b < 8; b++) if (mask >> b & 1) access_cell(key << 3 | b | BYTE, 1, w, pc);
}
static void check_ranges(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	for (int i = 0; i < nranges; i++) { BigRange &r = ranges[i]; if (r.tid != cur->id && (w || r.w) && a < r.hi && a + n > r.lo && r.clk > cur->vc[r.tid]) found_race(a, r.pc, r.tid, r.w, pc, cur->id, w); }
}
static void access(const void *p, size_t n, bool w, uintptr_t pc) {
	if (!in_model) return;
	uintptr_t a = (uintptr_t)p;
	if (own_stack(a)) return;
	check_mem(p, w ? "write" : "read");
	if (n > 1) check_mem((const uint8_t *)p + n - 1, w ? "write" : "read");
	if (nracy && is_racy(pc)) {
		Obj *o = obj((void *)(a & ~7ull)); o->kind = 3; sched_point(O_ACCESS, (void *)(a & ~7ull)); if (w) ev_w(o, 0x71); else ev_r(o, 0x72);
		return;
	}
	if (NT == 1) return; // before everything the other threads do
	if (!w && a >= exe_base && a < (uintptr_t)snap_lo) return; // constants
	if (nranges) check_ranges(a, n, w, pc);
	if (n > 64) {
		if (nranges >= 512) { fprintf(stdout, "too many ranges\n"); fflush(stdout); _exit(90); }
		ranges[nranges++] = {a, a + n, cur->id, cur->vc[cur->id], w, pc};
		return;
	}
	while (n) {
		unsigned off = a & 7, k = std::min<size_t>(8 - off, n);
		access_cell(a >> 3, (uint8_t)(((1u << k) - 1) << off), w, pc);
		a += k; n -= k;
	}
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(N) EXPORT void __tsan_read##N(void *p) { access(p, N, false, PC); } EXPORT void __tsan_write##N(void *p) { access(p, N, true, PC); } \
	EXPORT void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } EXPORT void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
	EXPORT void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); } EXPORT void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); } \
	EXPORT void __tsan_read##N##_pc(void *p, void *) { access(p, N, false, PC); } EXPORT void __tsan_write##N##_pc(void *p, void *) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
EXPORT void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
EXPORT void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) { if (in_model && n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) { if (in_model && n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
EXPORT void *__wrap_memset(void *d, int c, size_t n) { if (in_model && n) access(d, n, true, PC); return memset(d, c, n); }

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
struct At { Obj *o; int mo; bool w, on; At(const volatile void *p, int mo, bool w) : o(nullptr), mo(mo), w(w), on(in_model) { if (!on) return; check_mem((const void *)p, "atomic access"); o = obj((const void *)p); o->kind = 4; sched_point(O_ATOMIC, (const void *)p); check_mem((const void *)p, "atomic access"); if (acq(mo)) acquire(o); if (w) ev_w(o, 0x81); else ev_r(o, 0x82); } ~At() { if (on && w && rel(mo)) release(o); } };
#define ATOMIC(B, TY) \
	EXPORT TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { At t(a, mo, false); return *a; } \
	EXPORT void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { At t(a, mo, true); *a = v; } \
	EXPORT TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = v; return o; } \
	EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = o + v; return o; } \
	EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = o - v; return o; } \
	EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = o & v; return o; } \
	EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = o | v; return o; } \
	EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { At t(a, mo, true); TY o = *a; *a = o ^ v; return o; } \
	EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int) { At t(a, mo, true); TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int) { At t(a, mo, true); TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int) { At t(a, mo, true); TY o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { if (in_model) { Obj *o = obj(&epoch); o->kind = 5; sched_point(O_ATOMIC, &epoch); acquire(o); ev_w(o, 0x83); release(o); } }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ services for scenarios
static mc_entry entries[512]; static int nentries;
EXPORT int mc_self() { return cur->id; }
EXPORT unsigned mc_choose(unsigned n) { if (n < 2) return 0; int c = take_choice(n, true); cur->H = mix(mix(cur->H, 0xcc), c); return c; }
EXPORT void mc_fail(const char *fmt, ...) { char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation("%s", b); }
static char evkeys[64];
EXPORT void mc_event_set(int e) { Obj *o = obj(&evkeys[e]); o->kind = 6; sched_point(O_NOTIFY, &evkeys[e]); o->owner = 1; ev_w(o, 0x91); release(o); }
EXPORT void mc_event_wait(int e) { Obj *o = obj(&evkeys[e]); o->kind = 6; sched_point(O_EVWAIT, &evkeys[e]); ev_w(o, 0x92); acquire(o); }
EXPORT bool mc_event_isset(int e) { Obj *o = obj(&evkeys[e]); sched_point(O_ATOMIC, &evkeys[e]); ev_w(o, 0x93); acquire(o); return o->owner == 1; }
EXPORT void mc_step(const void *p) { Obj *o = obj(p); o->kind = 6; sched_point(O_ATOMIC, p); ev_w(o, 0x94); }
EXPORT void mc_stamp_now(mc_stamp *s) { s->tid = cur->id; memcpy(s->vc, cur->vc, sizeof s->vc); cur->vc[cur->id]++; }
EXPORT bool mc_hb(const mc_stamp *a, const mc_stamp *b) { return b->vc[a->tid] >= a->vc[a->tid] && !(a->tid == b->tid && a->vc[a->tid] > b->vc[a->tid]) && (a->tid == b->tid || b->vc[a->tid] >= a->vc[a->tid] + 1); }
EXPORT int mc_log(int kind, long a, long b, long c, long d) { if (nentries >= 512) violation("too many callbacks"); mc_entry &e = entries[nentries]; e = mc_entry(); e.kind = kind; e.a = a; e.b = b; e.c = c; e.d = d; mc_stamp_now(&e.begin); return nentries++; }
EXPORT void mc_log_end(int i) { entries[i].ended = true; mc_stamp_now(&entries[i].end); }
EXPORT int mc_log_count() { return nentries; }
EXPORT const mc_entry *mc_log_get(int i) { return &entries[i]; }
EXPORT bool mc_all_started() { for (int i = 0; i < NT; i++) if (cur->vc[i] < 1) return false; return true; }
EXPORT int mc_live_threads() { int n = 0; for (int i = 0; i < NT; i++) if (&T[i] != cur && T[i].st != DONE) n++; return n; }
EXPORT long mc_live_allocs() { return live_allocs; }
EXPORT void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept { const char *b = strrchr(f, '/'); violation("assertion '%s' fails in %s:%u", e, b ? b + 1 : f, l); }
static std::atomic<uint64_t> *outcomes; static const int OUTC = 1 << 18; // shared set of distinct outcomes
EXPORT void mc_nontrivial(const char *s) {
	uint64_t h = mc::hash64(s, strlen(s)) | 1;
	for (int i = 0; i < 64; i++) { auto &o = outcomes[(h + i) & (OUTC - 1)]; uint64_t v = o.load(); if (v == h) return; if (!v) { uint64_t z = 0; if (o.compare_exchange_strong(z, h)) { if (ex.me >= 0) ex.nontrivial(); return; } if (z == h) return; } }
}
static uint8_t *regions[2];
EXPORT uint8_t *mc_region(int i) { return regions[i]; }

// ------------------------------------------------------------------ one execution
static const mc_scenario *scen; static long scen_args[8];
static const mc_scenario *SCEN; static const mc_plan *PLANS; 
static void *scen_main(void *) {
	scen->fn(scen_args);
	run_tls_dtors();
	if (mc_live_threads()) violation("%d threads still exist at the end", mc_live_threads());
	if (leak_is_violation && live_allocs) violation("memory leak: %ld heap blocks are still allocated", live_allocs);
	// a complete execution; distinct = another history of callbacks
	if (ex.me >= 0) {
		ex.slots[ex.me].outcomes[0]++;
		uint64_t h = scen_salt; for (int i = 0; i < nentries; i++) { h = mix(h, entries[i].kind + 100 * entries[i].begin.tid); h = mix(mix(h, entries[i].a), entries[i].b); }
		char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)h); mc_nontrivial(b);
	}
	mc_switch(&cur->sp, explorer_sp);
	return nullptr;
}
// runs the prefix in pre[0..npre); new choice points are left in alts
static void execute() {
	epoch++; nobj = 0; ncells = 0; nranges = 0; nentries = 0; NT = 0; eager_parent = nullptr; preempts = spurs = 0; steps = 0; nch = 0; aborted = false; nalts = 0; nexec_trans = 0;
	arena_reset(); fault_tid = -1; fault_thread = -1; fault_fired = 0; fault_paused = false;
	memcpy(snap_lo, snap, snap_n);
	Th *m = new_thread(scen_main, nullptr);
	m->vc[0] = 1; m->H = 0x1234; m->st = RUNNING;
	cur = m;
	if (tls_n) memcpy(tls_lo, tls_init, tls_n);
	memcpy(m->eh, __cxa_get_globals(), 16);
	char eh[16]; memcpy(eh, __cxa_get_globals(), 16);
	in_model = true;
	mc_switch(&explorer_sp, m->sp);
	in_model = false;
	memcpy(__cxa_get_globals(), eh, 16);
}

// ------------------------------------------------------------------ exploration
struct QEnt { uint16_t len; uint8_t c[2][1023]; };
struct Queue { std::atomic_flag lock; std::atomic<int> n, active, started; QEnt e[16384]; };
static Queue *Q;
struct Lock { Lock() { while (Q->lock.test_and_set(std::memory_order_acquire)) ; } ~Lock() { Q->lock.clear(std::memory_order_release); } };
typedef std::pair<mc::bytes, mc::bytes> Pfx;
static bool q_push(const Pfx &p) { if (p.first.size() > 1023) return false; Lock l; if (Q->n >= 16384) return false; QEnt &e = Q->e[Q->n]; e.len = p.first.size(); memcpy(e.c[0], p.first.data(), e.len); memcpy(e.c[1], p.second.data(), e.len); Q->n++; return true; }
static bool q_pop(Pfx &p, bool was_active) { // adjusts the number of active workers
	Lock l;
	if (Q->n > 0) { int k = --Q->n; QEnt &e = Q->e[k]; p.first.assign(e.c[0], e.c[0] + e.len); p.second.assign(e.c[1], e.c[1] + e.len); if (!was_active) Q->active++; return true; }
	if (was_active) Q->active--;
	return false;
}
static uint64_t max_execs_seen;
static void setup_case(const char *name, const mc_plan &pl) {
	mc::Slot &s = ex.slots[ex.me];
	mc::Case c; c.kind = name; c.p = {(uint64_t)(int64_t)preempt_bound, (uint64_t)pl.spurious}; for (long a : pl.args) c.p.push_back((uint64_t)a);
	c.p.push_back(racy->n); for (int i = 0; i < racy->n; i++) c.p.push_back(racy->pc[i] - exe_base);
	c.a.assign(MAXC, 0); c.b.assign(MAXC, 0);
	s.case_len = mc::ser(c, s.casebuf, mc::CASE_MAX);
	case_a = s.casebuf + s.case_len - MAXC - 8 - MAXC; case_b = s.casebuf + s.case_len - MAXC;
}
static void worker(const mc_plan &pl) {
	setup_case(scen->name, pl);
	mc::Slot &s = ex.slots[ex.me];
	std::vector<Pfx> local; 
	bool active = true; // all workers start active
	if (ex.me == 0) local.push_back({});
	Pfx p; uint64_t last_a = 0;
	for (;;) {
		if (ex.sh->stop) _exit(0);
		if (!local.empty()) { p = std::move(local.back()); local.pop_back(); }
		else if (!q_pop(p, active)) {
			active = false;
			if (Q->active == 0 && Q->n == 0) break;
			usleep(100); s.seq++;
			continue;
		} else active = true;
		npre = p.first.size(); memcpy(pre, p.first.data(), npre); memcpy(precnt, p.second.data(), npre);
		memset(case_a, 0, std::max<uint64_t>(last_a, npre)); memset(case_b, 0, std::max<uint64_t>(last_a, npre));
		s.seq++; s.evals++;
		execute();
		last_a = nch;
		s.transitions += nexec_trans;
		for (int i = 0; i < nalts; i++) { // deepest last: popped first
			int at = alts[i].first;
			for (int k = alts[i].second - 1; k >= 1; k--) {
				Pfx q; q.first.assign(chosen, chosen + at); q.second.assign(chcnt, chcnt + at); q.first.push_back(k); q.second.push_back(alts[i].second);
				if (Q->n < 256 && i < nalts / 2 + 1 && q_push(q)) continue;
				local.push_back(std::move(q));
			}
		}
		if (Q->n < 64 && local.size() > 8) { size_t give = local.size() / 2; size_t done = 0; for (; done < give; done++) if (!q_push(local[done])) break; local.erase(local.begin(), local.begin() + done); }
	}
	_exit(0);
}
static void init_once() {
	__libc_single_threaded = 0;
	Dl_info di; dladdr((void *)SCEN, &di); exe_base = (uintptr_t)di.dli_fbase;
	small_base = (uint8_t *)mmap((void *)0x200000000000ull, SMALL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	big_base = (uint8_t *)mmap((void *)0x210000000000ull, BIG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	small_sh = (uint8_t *)mmap(nullptr, SMALL / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	allocs = (AllocRec *)mmap(nullptr, sizeof(AllocRec) * MAXA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (int i = 0; i < 2; i++) regions[i] = (uint8_t *)mmap((void *)(0x220000000000ull + i * 0x1000000000ull), 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	for (int i = 0; i < MC_MAXT; i++) { uint8_t *m = (uint8_t *)mmap((void *)(0x230000000000ull + i * (1ull << 25)), STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); mprotect(m, 4096, PROT_NONE); T[i].stack = m + 4096; }
	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
		for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tls_lo = (uint8_t *)i->dlpi_tls_data; tls_n = i->dlpi_phdr[k].p_memsz; tls_img = (const uint8_t *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; tls_img_n = i->dlpi_phdr[k].p_filesz; }
		return 1; // the executable comes first
	}, nullptr);
	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
		for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && ntlsr < 16) tlsr[ntlsr++] = {(uintptr_t)i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz};
		return 0;
	}, nullptr);
	if (tls_n) { tls_init = (uint8_t *)calloc(1, tls_n); memcpy(tls_init, tls_img, tls_img_n); for (int i = 0; i < MC_MAXT; i++) T[i].tls = (uint8_t *)malloc(tls_n); }
	racy = (Racy *)mmap(nullptr, sizeof(Racy), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	outcomes = (std::atomic<uint64_t> *)mmap(nullptr, 8 * OUTC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Q = (Queue *)mmap(nullptr, sizeof(Queue), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (small_base == MAP_FAILED || big_base == MAP_FAILED || Q == MAP_FAILED) { perror("mmap"); exit(3); }
	*(void **)&real_self = dlsym(RTLD_NEXT, "pthread_self");
}
EXPORT int mc_run(int argc, char **argv, const mc_scenario *scs, const mc_plan *plans, uint8_t *data_lo, uint8_t *data_hi, void (*warmup)()) {
	if (argc < 4) { fprintf(stderr, "usage: %s PROP quick|thorough RESULT | PROP replay FILE\n", argv[0]); return 2; }
	SCEN = scs; PLANS = plans;
	ex.property = argv[1]; ex.tier = argv[2];
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp";
	init_once();
	race_is_violation = ex.property == "S11" || ex.property == "C15" || ex.property == "O10"; leak_is_violation = ex.property == "S06";
	if (warmup) warmup();
	snap_lo = data_lo; snap_n = data_hi - data_lo; snap = (uint8_t *)malloc(snap_n); memcpy(snap, snap_lo, snap_n);
	auto find = [&](const std::string &n) -> const mc_scenario * { for (auto *s = scs; s->name; s++) if (n == s->name) return s; return nullptr; };
	if (ex.tier == "replay") {
		FILE *f = fopen(argv[3], "rb"); if (!f) { perror(argv[3]); return 2; }
		mc::bytes d; int ch; while ((ch = fgetc(f)) != EOF) d.push_back(ch); fclose(f);
		mc::Case c; if (!mc::deser(d.data(), d.size(), c)) return 2;
		scen = find(c.kind); if (!scen) return 2;
		preempt_bound = (int)(int64_t)c.p[0]; spur_bound = (int)c.p[1]; for (int i = 0; i < 8; i++) scen_args[i] = (long)c.p[2 + i];
		nracy = racy->n = (int)c.p[10]; for (int i = 0; i < racy->n; i++) racy->pc[i] = c.p[11 + i] + exe_base;
		npre = MAXC; while (npre && c.b[npre - 1] == 0) npre--;
		memcpy(pre, c.a.data(), npre); memcpy(precnt, c.b.data(), npre);
		printf("replaying %s with %d scheduling choices\n", c.kind.c_str(), npre); fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			alarm(30); replaying = true; check_counts = true;
			int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
			execute();
			printf("holds\n"); fflush(stdout); _exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 90) return 3;
		if (WIFSIGNALED(st)) printf("died with signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st)));
		return 1;
	}
	bool thorough = ex.tier == "thorough";
	ex.set_bits = thorough ? 28 : 26;
	ex.init();
	double t_begin = mc::now(), deadline = getenv("MC_DEADLINE") ? atof(getenv("MC_DEADLINE")) : thorough ? 3000 : 600; int skipped = 0;
	bool any = false; std::string only = getenv("MC_ONLY") ? getenv("MC_ONLY") : "";
	int idx = 0; std::string bounds;
	for (auto *pl = plans; pl->prop; pl++, idx++) {
		if (ex.property != pl->prop) continue;
		if (pl->tier == 1 && !thorough) continue;
		if (pl->tier == 2 && thorough) continue;
		scen = find(pl->scen); if (!scen) { fprintf(stderr, "no scenario %s\n", pl->scen); return 3; }
		std::string name = pl->scen; name += "("; for (int i = 0; i < 8; i++) { int last = 7; while (last > 0 && !pl->args[last]) last--; if (i <= last) name += (i ? "," : "") + std::to_string(pl->args[i]); } name += ")";
		int pb = pl->preempt; if (thorough && pl->tier == 0 && pb >= 2 && pl->args[0] <= 2) pb++;
		name += pb == -2 ? " one schedule per input" : pb < 0 ? " all interleavings" : " <=" + std::to_string(pb) + " preemptions";
		if (pl->spurious) name += ", <=" + std::to_string(pl->spurious) + " spurious wake-ups";
		if (!only.empty() && name.find(only) == std::string::npos) continue;
		any = true;
		if (mc::now() - t_begin > deadline) { skipped++; printf("  not explored, out of time: %s\n", name.c_str()); continue; }
		preempt_bound = pb; spur_bound = pl->spurious; memcpy(scen_args, pl->args, sizeof scen_args);
		bool ok; uint64_t s0 = ex.sh->states;
		do {
			ex.restart = false; scen_salt = mix(idx + 1, racy->n + 1); nracy = racy->n;
			Q->n = 0; Q->active = ex.workers; Q->lock.clear();
			ok = ex.family(name, [&](mc::Explorer &) { worker(*pl); });
		} while (ex.restart);
		printf("    %llu states%s\n", (unsigned long long)(ex.sh->states - s0), racy->n ? " (with racy accesses as scheduling points)" : "");
		if (!ok) break;
	}
	if (!any) { fprintf(stderr, "no plan for %s\n", argv[1]); return 3; }
	ex.samples.clear();
	for (auto &f : ex.families) if (ex.samples.size() < 12) ex.samples.push_back(f.first + ": " + std::to_string(f.second) + " complete or pruned schedules");
	ex.write_result(argv[3], std::string(", \"racy_accesses_promoted\": ") + std::to_string(racy->n.load()) + ", \"complete_executions\": " + std::to_string(ex.outcomes[0]) + ", \"plans_skipped_out_of_time\": " + std::to_string(skipped) + (skipped ? ", \"exhaustive\": false" : ""));
	return ex.failed ? 1 : 0;
}
