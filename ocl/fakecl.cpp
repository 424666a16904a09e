#include "fakecl.h"
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

using std::string; using std::vector;
namespace fakecl {
Config cfg; Stats st; bool record_names = false; string kerndir = "/tmp", compile_error;
void (*step)(const void *); void (*touch)(const void *, size_t, bool); uint8_t *(*devmem)(size_t);
#define STEP(o) do { if (step) step((const void *)(o)); } while (0)
#define TOUCH(p, n, w) do { if (touch) touch((const void *)(p), n, w); } while (0)

struct Obj { int kind; long refs = 1; virtual ~Obj() {} };
enum { CTX, QUEUE, MEM, PROG, KERN, EVENT };
static const char *KN[] = {"context", "queue", "buffer", "program", "kernel", "event"};
static std::set<Obj *> objs;
static void misuse(const string &s) { if (st.misuse.empty()) st.misuse = s; }
static bool is(void *p, int kind) { Obj *o = (Obj *)p; return objs.count(o) && o->kind == kind; }
template <class T> T *add(T *o, int kind) { o->kind = kind; objs.insert(o); return o; }

struct Device { Dev d; int plat; };
struct Platform { Plat p; vector<Device> devs; };
static vector<std::unique_ptr<Platform>> plats;
static bool plats_built = false;
static void setup() {
	if (plats_built) return;
	plats_built = true; plats.clear();
	for (size_t i = 0; i < cfg.plats.size(); i++) { auto p = std::make_unique<Platform>(); p->p = cfg.plats[i]; for (auto &d : p->p.devs) p->devs.push_back({d, (int)i}); plats.push_back(std::move(p)); }
}
static bool is_dev(void *d) { for (auto &p : plats) for (auto &x : p->devs) if (&x == d) return true; return false; }

struct Context : Obj { vector<Device *> devs; };
struct Event : Obj { bool done = false; int error = 0; bool profiling = false; struct Queue *q = nullptr; };
struct Queue : Obj { Context *c; Device *d; bool profiling; std::deque<std::pair<Event *, std::function<void()>>> cmds; };
struct Mem : Obj { Context *c; uint8_t *p = nullptr, *map = nullptr; size_t n = 0, maplen = 0; cl_mem_flags flags = 0; int maps = 0; ~Mem() { if (map) munmap(map, maplen); } };
struct Kern { string key; void *so = nullptr; };
struct Program : Obj { Context *c; string src; bool from_binary = false; std::map<Device *, string> key; std::map<Device *, bool> built; string log; };
struct ArgT { bool ptr; size_t size; };
struct Kernel : Obj { Program *p; string name; vector<ArgT> args; vector<uint64_t> val; vector<Mem *> mem; vector<bool> set; };

long live() { return objs.size(); }
string live_desc() { std::map<string, int> m; for (auto *o : objs) m[KN[o->kind]]++; string s; for (auto &x : m) s += std::to_string(x.second) + " " + x.first + " "; return s; }
void reset() { for (auto *o : objs) delete o; objs.clear(); plats.clear(); plats_built = false; st = Stats(); cfg = Config(); }

static void rel(Obj *o) {
	if (!objs.count(o)) { misuse("release of an invalid object"); return; }
	if (--o->refs > 0) return;
	if (o->kind == QUEUE) { auto *q = (Queue *)o; while (!q->cmds.empty()) { auto c = std::move(q->cmds.front()); q->cmds.pop_front(); c.second(); if (c.first) { c.first->done = true; rel(c.first); } } rel(q->c); }
	if (o->kind == MEM) rel(((Mem *)o)->c);
	if (o->kind == PROG) rel(((Program *)o)->c);
	if (o->kind == KERN) rel(((Kernel *)o)->p);
	if (o->kind == MEM && ((Mem *)o)->maps) misuse("buffer released while mapped");
	objs.erase(o); delete o;
}
static bool fail(const char *name) {
	setup();
	if (record_names) st.call_names.push_back(name);
	if (st.calls++ == cfg.fail_at) { st.last_failed = name; return true; }
	return false;
}
#define FAULT(ret) oom::Off oom_off_; do { if (fail(__func__)) { if (err) *err = cfg.fail_code; return ret; } } while (0)
#define FAULTI() oom::Off oom_off_; do { if (fail(__func__)) return cfg.fail_code; } while (0)

// ---- kernels
static string strhash(const string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; uint64_t g = 88172645463325252ull; for (unsigned char c : s) { g ^= c; g *= 0x9E3779B97F4A7C15ull; g ^= g >> 29; } char b[40]; snprintf(b, 40, "%016llx%016llx", (unsigned long long)h, (unsigned long long)g); return b; }
static std::map<string, void *> loaded;
static vector<string> split(const string &s) { std::istringstream i(s); vector<string> v; string t; while (i >> t) v.push_back(t); return v; }
static string quote(const string &s) { string o = "'"; for (char c : s) { if (c == '\'') o += "'\\''"; else o += c; } return o + "'"; }
// compiles the program; returns its key or "" with the log
static string compile(const string &src, const string &opts, string &log) {
	string key = strhash(src + "\x01" + opts), so = kerndir + "/" + key + ".so";
	if (loaded.count(key)) return key;
	if (access(so.c_str(), R_OK)) {
		string t = kerndir + "/" + key + "." + std::to_string(getpid());
		FILE *f = fopen((t + ".cl").c_str(), "w"); if (!f) { compile_error = "cannot write " + t; return ""; }
		fwrite(src.data(), 1, src.size(), f); fclose(f);
		string cmd = "clang -x cl -cl-std=CL1.2 -O1 -fPIC -shared -w";
		for (auto &o : split(opts)) cmd += " " + quote(o);
		cmd += " " + t + ".cl -o " + t + ".so > " + t + ".log 2>&1";
		int r = system(cmd.c_str());
		FILE *l = fopen((t + ".log").c_str(), "r"); if (l) { char b[2000]; size_t n; while ((n = fread(b, 1, sizeof b, l)) > 0) log.append(b, n); fclose(l); }
		if (r == 0 && rename((t + ".so").c_str(), so.c_str())) r = 1;
		unlink((t + ".cl").c_str()); unlink((t + ".so").c_str()); unlink((t + ".log").c_str());
		if (r) return "";
	}
	void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h) { log = dlerror(); compile_error = log; return ""; }
	loaded[key] = h;
	return key;
}
// program binaries: magic, device, total size, body, key at the very end; a "driver" without any checksum
static string make_binary(Device *d, const string &key) {
	string b = "FAKEBIN1" + key + ";" + d->d.name + ";";
	while (b.size() + key.size() < cfg.binary_size) b += key[b.size() % key.size()];
	return b + key;
}
static string read_binary(Device *d, const string &b) { // key or ""
	if (b.size() != cfg.binary_size || b.compare(0, 8, "FAKEBIN1")) return "";
	if (b.compare(8 + 32, 2 + d->d.name.size(), ";" + d->d.name + ";")) return "";
	return b.substr(b.size() - 32);
}
static bool load_key(const string &key) {
	if (loaded.count(key)) return true;
	for (char c : key) if (!isxdigit((unsigned char)c)) return false;
	void *h = dlopen((kerndir + "/" + key + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h) return false;
	loaded[key] = h; return true;
}
static std::map<string, string> key_src;

static thread_local size_t g_gid, g_gsize, g_lsize;
static bool parse_sig(const string &src, const string &name, vector<ArgT> &args) {
	size_t p = 0;
	while ((p = src.find("__kernel", p)) != string::npos) {
		size_t o = src.find('(', p), c = src.find(')', o);
		if (o == string::npos || c == string::npos) return false;
		string head = src.substr(p, o - p); while (!head.empty() && isspace((unsigned char)head.back())) head.pop_back();
		size_t b = head.find_last_of(" \t\n*"); 
		if (b != string::npos && head.substr(b + 1) == name) {
			string a = src.substr(o + 1, c - o - 1); std::istringstream i(a); string t;
			while (std::getline(i, t, ',')) {
				if (t.find('*') != string::npos) args.push_back({true, sizeof(cl_mem)});
				else if (t.find("long") != string::npos || t.find("64") != string::npos || t.find("size_t") != string::npos) args.push_back({false, 8});
				else args.push_back({false, 4});
			}
			return true;
		}
		p = o;
	}
	return false;
}
} // namespace fakecl
using namespace fakecl;
size_t get_global_id(unsigned d) { return d == 0 ? g_gid : 0; }
size_t get_local_id(unsigned d) { return d == 0 ? g_gid % g_lsize : 0; }
size_t get_group_id(unsigned d) { return d == 0 ? g_gid / g_lsize : 0; }
size_t get_global_size(unsigned d) { return d == 0 ? g_gsize : 1; }
size_t get_local_size(unsigned d) { return d == 0 ? g_lsize : 1; }
size_t get_num_groups(unsigned d) { return d == 0 ? g_gsize / g_lsize : 1; }
size_t get_global_offset(unsigned) { return 0; }
unsigned get_work_dim() { return 1; }

static cl_int ret(const void *src, size_t n, size_t cap, void *dst, size_t *out) { if (out) *out = n; if (dst) { if (cap < n) return CL_INVALID_VALUE; memcpy(dst, src, n); } return CL_SUCCESS; }
static cl_int rets(const string &s, size_t cap, void *dst, size_t *out) { return ret(s.c_str(), s.size() + 1, cap, dst, out); }

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *num) {
	FAULTI();
	if (plats.empty()) { if (num) *num = 0; return -1001; }
	if (num) *num = plats.size();
	for (cl_uint i = 0; p && i < n && i < plats.size(); i++) p[i] = (cl_platform_id)plats[i].get();
	return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	auto *P = (Platform *)p;
	switch (k) { case CL_PLATFORM_NAME: return rets(P->p.name, n, v, o); case CL_PLATFORM_VERSION: return rets("OpenCL 1.2 fake", n, v, o); case CL_PLATFORM_EXTENSIONS: return rets("", n, v, o); }
	return rets("fake", n, v, o);
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *num) {
	FAULTI();
	vector<Device *> v; for (auto &x : ((Platform *)p)->devs) if (t == CL_DEVICE_TYPE_ALL || ((t & CL_DEVICE_TYPE_GPU) && x.d.gpu) || ((t & CL_DEVICE_TYPE_CPU) && !x.d.gpu) || ((t & CL_DEVICE_TYPE_DEFAULT) && &x == &((Platform *)p)->devs[0])) v.push_back(&x);
	if (v.empty()) { if (num) *num = 0; return CL_DEVICE_NOT_FOUND; }
	if (num) *num = v.size();
	for (cl_uint i = 0; d && i < n && i < v.size(); i++) d[i] = (cl_device_id)v[i];
	return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is_dev(d)) return CL_INVALID_DEVICE;
	auto *D = (Device *)d;
	switch (k) {
	case CL_DEVICE_NAME: return rets(D->d.name, n, v, o);
	case CL_DEVICE_AVAILABLE: { cl_bool b = D->d.available; return ret(&b, sizeof b, n, v, o); }
	case CL_DEVICE_COMPILER_AVAILABLE: { cl_bool b = 1; return ret(&b, sizeof b, n, v, o); }
	case CL_DEVICE_TYPE: { cl_device_type b = D->d.gpu ? CL_DEVICE_TYPE_GPU : CL_DEVICE_TYPE_CPU; return ret(&b, sizeof b, n, v, o); }
	case CL_DEVICE_PLATFORM: { cl_platform_id b = (cl_platform_id)plats[D->plat].get(); return ret(&b, sizeof b, n, v, o); }
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: { size_t b = 256; return ret(&b, sizeof b, n, v, o); }
	case CL_DEVICE_VERSION: return rets("OpenCL 1.2 fake", n, v, o);
	case CL_DRIVER_VERSION: case CL_DEVICE_VENDOR: case CL_DEVICE_PROFILE: return rets("fake", n, v, o);
	case CL_DEVICE_EXTENSIONS: return rets("", n, v, o);
	}
	return CL_INVALID_VALUE;
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
#define RR(T, N, K) cl_int clRetain##N(T o) { oom::Off oom_off_; if (!is(o, K)) { misuse("retain of an invalid " #N); return CL_INVALID_VALUE; } ((Obj *)o)->refs++; return CL_SUCCESS; } \
	cl_int clRelease##N(T o) { oom::Off oom_off_; if (!is(o, K)) { misuse("release of an invalid " #N); return CL_INVALID_VALUE; } rel((Obj *)o); return CL_SUCCESS; }
RR(cl_context, Context, CTX) RR(cl_command_queue, CommandQueue, QUEUE) RR(cl_mem, MemObject, MEM) RR(cl_program, Program, PROG) RR(cl_kernel, Kernel, KERN) RR(cl_event, Event, EVENT)

cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (*)(const char *, const void *, size_t, void *), void *, cl_int *err) {
	FAULT(nullptr);
	for (cl_uint i = 0; i < n; i++) if (!is_dev(d[i])) { if (err) *err = CL_INVALID_DEVICE; return nullptr; }
	if (!n) { if (err) *err = CL_INVALID_VALUE; return nullptr; }
	for (cl_uint i = 0; i < n; i++) { if (((Device *)d[i])->plat != ((Device *)d[0])->plat) { if (err) *err = CL_INVALID_DEVICE; return nullptr; } if (!((Device *)d[i])->d.available) { if (err) *err = CL_DEVICE_NOT_AVAILABLE; return nullptr; } }
	auto *c = add(new Context, CTX); for (cl_uint i = 0; i < n; i++) c->devs.push_back((Device *)d[i]);
	st.ctx_devices.clear(); for (auto *x : c->devs) st.ctx_devices += x->d.name + ";";
	if (err) *err = 0; return (cl_context)c;
}
cl_int clGetContextInfo(cl_context c, cl_context_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(c, CTX)) return CL_INVALID_CONTEXT;
	auto *C = (Context *)c;
	switch (k) {
	case CL_CONTEXT_DEVICES: return ret(C->devs.data(), C->devs.size() * sizeof(void *), n, v, o);
	case CL_CONTEXT_NUM_DEVICES: { cl_uint x = C->devs.size(); return ret(&x, sizeof x, n, v, o); }
	}
	return CL_INVALID_VALUE;
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *err) {
	FAULT(nullptr);
	if (!is(c, CTX)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
	auto *C = (Context *)c; if (std::find(C->devs.begin(), C->devs.end(), (Device *)d) == C->devs.end()) { if (err) *err = CL_INVALID_DEVICE; return nullptr; }
	auto *q = add(new Queue, QUEUE); q->c = C; C->refs++; q->d = (Device *)d; q->profiling = p & CL_QUEUE_PROFILING_ENABLE;
	if (p & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE) misuse("out-of-order queue (not modelled)");
	st.queue_device = q->d->d.name;
	if (err) *err = 0; return (cl_command_queue)q;
}
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(q, QUEUE)) return CL_INVALID_COMMAND_QUEUE;
	auto *Q = (Queue *)q;
	switch (k) {
	case CL_QUEUE_CONTEXT: return ret(&Q->c, sizeof(void *), n, v, o);
	case CL_QUEUE_DEVICE: return ret(&Q->d, sizeof(void *), n, v, o);
	}
	return CL_INVALID_VALUE;
}
static bool memrange(Mem *m, size_t off, size_t n) { return n && off <= m->n && n <= m->n - off; }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags fl, size_t n, void *host, cl_int *err) {
	FAULT(nullptr);
	if (!is(c, CTX)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
	if (!n) { if (err) *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
	if (((fl & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR)) != 0) != (host != nullptr)) { if (err) *err = CL_INVALID_HOST_PTR; return nullptr; }
	size_t body = (n + 4095) / 4096 * 4096, pg = 4096;
	bool sparse = cfg.sparse && n >= 1u << 28;
	if (n > (1ull << 32) && !sparse) { if (err) *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
	auto *m = new Mem;
	if (devmem) {
		m->p = devmem(n); memset(m->p, cfg.fill, n); if (host) { TOUCH(host, n, false); memcpy(m->p, host, n); }
		add(m, MEM); m->c = (Context *)c; m->c->refs++; m->n = n; m->flags = fl;
		if (err) *err = 0; return (cl_mem)m;
	}
	uint8_t *p = (uint8_t *)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED || mprotect(p + pg, body, PROT_READ | PROT_WRITE)) { delete m; if (err) *err = CL_MEM_OBJECT_ALLOCATION_FAILURE; return nullptr; }
	add(m, MEM); m->c = (Context *)c; m->c->refs++; m->map = p; m->maplen = body + 2 * pg; m->n = n; m->flags = fl;
	m->p = p + pg + body - n; // the end of the buffer is the end of accessible memory
	memset(m->p - (body - n), 0xC7, body - n); if (!sparse) memset(m->p, cfg.fill, n);
	if (host) memcpy(m->p, host, n);
	if (err) *err = 0; return (cl_mem)m;
}
static int cmd_error; // set by a command that failed
static void flush_until(Queue *q, Event *e) {
	while (!q->cmds.empty() && !(e && e->done)) {
		auto c = std::move(q->cmds.front()); q->cmds.pop_front();
		c.second();
		if (c.first) { c.first->done = true; c.first->error = cmd_error; rel(c.first); }
		cmd_error = 0;
	}
}
static cl_int enqueue(Queue *q, cl_uint ne, const cl_event *ev, cl_event *out, std::function<void()> f) {
	STEP(q);
	if ((ne > 0) != (ev != nullptr)) return CL_INVALID_EVENT_WAIT_LIST;
	for (cl_uint i = 0; i < ne; i++) if (!is((void *)ev[i], EVENT)) return CL_INVALID_EVENT_WAIT_LIST;
	vector<Event *> w; for (cl_uint i = 0; i < ne; i++) { w.push_back((Event *)ev[i]); w.back()->refs++; }
	Event *e = add(new Event, EVENT); e->q = q; e->profiling = q->profiling;
	if (out) { e->refs++; *out = (cl_event)e; }
	q->cmds.push_back({e, [w, f] { for (auto *x : w) { if (!x->done && x->q && is(x->q, QUEUE)) flush_until(x->q, x); rel(x); } f(); }});
	if (!cfg.lazy) flush_until(q, e->refs > 1 ? e : nullptr);
	return CL_SUCCESS;
}
void *clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, cl_map_flags, size_t off, size_t n, cl_uint ne, const cl_event *ev, cl_event *out, cl_int *err) {
	FAULT(nullptr);
	if (!is(q, QUEUE) || !is(m, MEM)) { if (err) *err = CL_INVALID_MEM_OBJECT; return nullptr; }
	auto *M = (Mem *)m;
	if (!memrange(M, off, n)) { if (err) *err = CL_INVALID_VALUE; return nullptr; }
	cl_int r = enqueue((Queue *)q, ne, ev, out, [] {});
	if (r) { if (err) *err = r; return nullptr; }
	if (blocking) flush_until((Queue *)q, nullptr);
	M->maps++;
	if (err) *err = 0; return M->p + off;
}
cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void *p, cl_uint ne, const cl_event *ev, cl_event *out) {
	oom::Off oom_off_;
	if (fail(__func__)) { if (is(m, MEM)) ((Mem *)m)->maps = 0; return cfg.fail_code; }
	if (!is(q, QUEUE) || !is(m, MEM)) return CL_INVALID_MEM_OBJECT;
	auto *M = (Mem *)m; if (!M->maps || (uint8_t *)p < M->p || (uint8_t *)p >= M->p + M->n) return CL_INVALID_VALUE;
	M->maps--;
	return enqueue((Queue *)q, ne, ev, out, [] {});
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t off, size_t n, void *p, cl_uint ne, const cl_event *ev, cl_event *out) {
	FAULTI();
	if (!is(q, QUEUE) || !is(m, MEM)) return CL_INVALID_MEM_OBJECT;
	auto *M = (Mem *)m; if (!memrange(M, off, n) || !p) return CL_INVALID_VALUE;
	M->refs++; TOUCH(p, n, true);
	cl_int r = enqueue((Queue *)q, ne, ev, out, [=] { memcpy(p, M->p + off, n); rel(M); });
	if (!r && blocking) flush_until((Queue *)q, nullptr);
	return r;
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t off, size_t n, const void *p, cl_uint ne, const cl_event *ev, cl_event *out) {
	FAULTI();
	if (!is(q, QUEUE) || !is(m, MEM)) return CL_INVALID_MEM_OBJECT;
	auto *M = (Mem *)m; if (!memrange(M, off, n) || !p) return CL_INVALID_VALUE;
	M->refs++; TOUCH(p, n, false);
	cl_int r = enqueue((Queue *)q, ne, ev, out, [=] { memcpy(M->p + off, p, n); rel(M); });
	if (!r && blocking) flush_until((Queue *)q, nullptr);
	return r;
}
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem a, cl_mem b, size_t ao, size_t bo, size_t n, cl_uint ne, const cl_event *ev, cl_event *out) {
	FAULTI();
	if (!is(q, QUEUE) || !is(a, MEM) || !is(b, MEM)) return CL_INVALID_MEM_OBJECT;
	auto *A = (Mem *)a; auto *B = (Mem *)b; if (!memrange(A, ao, n) || !memrange(B, bo, n)) return CL_INVALID_VALUE;
	A->refs++; B->refs++;
	return enqueue((Queue *)q, ne, ev, out, [=] { memmove(B->p + bo, A->p + ao, n); rel(A); rel(B); });
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pat, size_t ps, size_t off, size_t n, cl_uint ne, const cl_event *ev, cl_event *out) {
	FAULTI();
	if (!is(q, QUEUE) || !is(m, MEM)) return CL_INVALID_MEM_OBJECT;
	auto *M = (Mem *)m; if (!memrange(M, off, n) || !ps || off % ps || n % ps) return CL_INVALID_VALUE;
	string P((const char *)pat, ps); M->refs++;
	return enqueue((Queue *)q, ne, ev, out, [=] { for (size_t i = 0; i < n; i += P.size()) memcpy(M->p + off + i, P.data(), P.size()); rel(M); });
}
cl_int clFinish(cl_command_queue q) { FAULTI(); if (!is(q, QUEUE)) return CL_INVALID_COMMAND_QUEUE; STEP(q); flush_until((Queue *)q, nullptr); return CL_SUCCESS; }
cl_int clFlush(cl_command_queue q) { FAULTI(); return is(q, QUEUE) ? CL_SUCCESS : CL_INVALID_COMMAND_QUEUE; }

cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) {
	FAULT(nullptr);
	if (!is(c, CTX)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
	if (!n || !s) { if (err) *err = CL_INVALID_VALUE; return nullptr; }
	auto *p = add(new Program, PROG); p->c = (Context *)c; p->c->refs++;
	for (cl_uint i = 0; i < n; i++) p->src += len && len[i] ? string(s[i], len[i]) : string(s[i]);
	st.from_source++;
	if (err) *err = 0; return (cl_program)p;
}
cl_program clCreateProgramWithBinary(cl_context c, cl_uint n, const cl_device_id *d, const size_t *len, const unsigned char **b, cl_int *bst, cl_int *err) {
	FAULT(nullptr);
	if (!is(c, CTX)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
	if (!n || !d || !len || !b) { if (err) *err = CL_INVALID_VALUE; return nullptr; }
	auto *C = (Context *)c; std::map<Device *, string> keys;
	for (cl_uint i = 0; i < n; i++) {
		if (std::find(C->devs.begin(), C->devs.end(), (Device *)d[i]) == C->devs.end()) { if (err) *err = CL_INVALID_DEVICE; return nullptr; }
		if (!len[i] || !b[i]) { if (bst) bst[i] = CL_INVALID_VALUE; if (err) *err = CL_INVALID_VALUE; return nullptr; }
		string k = read_binary((Device *)d[i], string((const char *)b[i], len[i]));
		if (k.empty() || (!cfg.late_reject && !load_key(k))) { if (bst) bst[i] = CL_INVALID_BINARY; if (err) *err = CL_INVALID_BINARY; return nullptr; }
		if (bst) bst[i] = CL_SUCCESS;
		keys[(Device *)d[i]] = k;
	}
	auto *p = add(new Program, PROG); p->c = C; C->refs++; p->from_binary = true; p->key = keys;
	st.from_binary++;
	if (err) *err = 0; return (cl_program)p;
}
static vector<Device *> prog_devs(Program *p) { vector<Device *> v; if (p->from_binary) { for (auto *d : p->c->devs) if (p->key.count(d)) v.push_back(d); } else v = p->c->devs; return v; }
cl_int clBuildProgram(cl_program pp, cl_uint n, const cl_device_id *d, const char *opts, void (*)(cl_program, void *), void *) {
	FAULTI();
	if (!is(pp, PROG)) return CL_INVALID_PROGRAM;
	auto *p = (Program *)pp; auto pd = prog_devs(p); vector<Device *> v;
	if ((n > 0) != (d != nullptr)) return CL_INVALID_VALUE;
	for (cl_uint i = 0; i < n; i++) { if (std::find(pd.begin(), pd.end(), (Device *)d[i]) == pd.end()) return CL_INVALID_DEVICE; v.push_back((Device *)d[i]); }
	if (!n) v = pd;
	st.builds++; st.options = opts ? opts : "";
	for (auto *x : v) {
		if (p->from_binary) { if (!load_key(p->key[x])) { p->log = "bad binary"; return CL_INVALID_BINARY; } }
		else { string k = compile(p->src, opts ? opts : "", p->log); if (k.empty()) return CL_BUILD_PROGRAM_FAILURE; p->key[x] = k; key_src[k] = p->src; }
		p->built[x] = true;
	}
	return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(p, PROG)) return CL_INVALID_PROGRAM;
	auto *P = (Program *)p;
	switch (k) {
	case CL_PROGRAM_BUILD_LOG: return rets(P->log, n, v, o);
	case CL_PROGRAM_BUILD_STATUS: { cl_build_status s = P->built[(Device *)d] ? CL_BUILD_SUCCESS : CL_BUILD_NONE; return ret(&s, sizeof s, n, v, o); }
	case CL_PROGRAM_BUILD_OPTIONS: return rets(st.options, n, v, o);
	}
	return CL_INVALID_VALUE;
}
cl_int clGetProgramInfo(cl_program p, cl_program_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(p, PROG)) return CL_INVALID_PROGRAM;
	auto *P = (Program *)p; auto pd = prog_devs(P);
	switch (k) {
	case CL_PROGRAM_NUM_DEVICES: { cl_uint x = pd.size(); return ret(&x, sizeof x, n, v, o); }
	case CL_PROGRAM_DEVICES: return ret(pd.data(), pd.size() * sizeof(void *), n, v, o);
	case CL_PROGRAM_CONTEXT: return ret(&P->c, sizeof(void *), n, v, o);
	case CL_PROGRAM_SOURCE: return rets(P->src, n, v, o);
	case CL_PROGRAM_KERNEL_NAMES: return rets("decompress", n, v, o);
	case CL_PROGRAM_BINARY_SIZES: { vector<size_t> s; for (auto *d : pd) s.push_back(P->built[d] ? make_binary(d, P->key[d]).size() : 0); return ret(s.data(), s.size() * sizeof(size_t), n, v, o); }
	case CL_PROGRAM_BINARIES: {
		if (o) *o = pd.size() * sizeof(void *);
		if (!v) return CL_SUCCESS;
		if (n < pd.size() * sizeof(void *)) return CL_INVALID_VALUE;
		for (size_t i = 0; i < pd.size(); i++) if (((unsigned char **)v)[i] && P->built[pd[i]]) { auto b = make_binary(pd[i], P->key[pd[i]]); memcpy(((unsigned char **)v)[i], b.data(), b.size()); }
		return CL_SUCCESS;
	}
	}
	return CL_INVALID_VALUE;
}
static string src_of(Program *p) { if (!p->src.empty()) return p->src; for (auto &k : p->key) { auto it = key_src.find(k.second); if (it != key_src.end()) return it->second; } return ""; }
extern const char *LIB842_CLDECOMPRESS_KERNEL_SOURCE;
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err) {
	FAULT(nullptr);
	if (!is(p, PROG)) { if (err) *err = CL_INVALID_PROGRAM; return nullptr; }
	auto *P = (Program *)p; string key;
	for (auto &b : P->built) if (b.second) key = P->key[b.first];
	if (key.empty()) { if (err) *err = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
	auto *k = new Kernel;
	string s = src_of(P); if (s.empty()) s = LIB842_CLDECOMPRESS_KERNEL_SOURCE; // program from a binary of another process
	if (!dlsym(loaded[key], name) || !parse_sig(s, name, k->args)) { delete k; if (err) *err = CL_INVALID_KERNEL_NAME; return nullptr; }
	add(k, KERN); k->p = P; P->refs++; k->name = name;
	k->val.resize(k->args.size()); k->mem.resize(k->args.size()); k->set.resize(k->args.size());
	if (err) *err = 0; return (cl_kernel)k;
}
cl_int clSetKernelArg(cl_kernel kk, cl_uint i, size_t n, const void *v) {
	FAULTI();
	if (!is(kk, KERN)) return CL_INVALID_KERNEL;
	auto *k = (Kernel *)kk; STEP(k); TOUCH(k, 8, true); // must not be called at the same time for one kernel
	if (i >= k->args.size()) return CL_INVALID_ARG_INDEX;
	if (n != k->args[i].size) return CL_INVALID_ARG_SIZE;
	if (k->args[i].ptr) { Mem *m = v ? *(Mem **)v : nullptr; if (m && !is(m, MEM)) return CL_INVALID_MEM_OBJECT; k->mem[i] = m; }
	else { if (!v) return CL_INVALID_ARG_VALUE; uint64_t x = 0; memcpy(&x, v, n); k->val[i] = x; }
	k->set[i] = true;
	return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel kk, cl_uint dim, const size_t *off, const size_t *gs, const size_t *ls, cl_uint ne, const cl_event *ev, cl_event *out) {
	FAULTI();
	if (!is(q, QUEUE)) return CL_INVALID_COMMAND_QUEUE;
	if (!is(kk, KERN)) return CL_INVALID_KERNEL;
	auto *Q = (Queue *)q; auto *k = (Kernel *)kk; STEP(k); TOUCH(k, 8, false);
	if (k->p->c != Q->c) return CL_INVALID_CONTEXT;
	if (!k->p->built[Q->d]) return CL_INVALID_PROGRAM_EXECUTABLE;
	if (dim != 1) return CL_INVALID_WORK_DIMENSION;
	if (off && off[0]) misuse("global offset (not modelled)");
	if (!gs || !gs[0]) return CL_INVALID_GLOBAL_WORK_SIZE;
	if (ls && (!ls[0] || gs[0] % ls[0])) return CL_INVALID_WORK_GROUP_SIZE;
	if (ls && ls[0] > 256) return CL_INVALID_WORK_GROUP_SIZE;
	for (bool b : k->set) if (!b) return CL_INVALID_KERNEL_ARGS;
	vector<uint64_t> a(16, 0); vector<Mem *> mems;
	for (size_t i = 0; i < k->args.size(); i++) { if (k->args[i].ptr) { a[i] = k->mem[i] ? (uint64_t)k->mem[i]->p : 0; if (k->mem[i]) { if (k->mem[i]->maps) misuse("kernel enqueued on a mapped buffer"); k->mem[i]->refs++; mems.push_back(k->mem[i]); } } else a[i] = k->val[i]; }
	typedef void (*fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
	fn f = (fn)dlsym(loaded[k->p->key[Q->d]], k->name.c_str());
	size_t G = gs[0], L = ls ? ls[0] : 1; int order = cfg.order;
	st.launches++; st.launched_key = k->p->key[Q->d];
	bool broken = st.launches == cfg.exec_fail_at + 1;
	if (broken) st.exec_failed++;
	return enqueue(Q, ne, ev, out, [=] {
		if (broken) { cmd_error = cfg.exec_fail_code; for (auto *m : mems) rel(m); return; }
		// buffers declared read-only for kernels really are
		for (auto *m : mems) if (m->map && (m->flags & CL_MEM_READ_ONLY)) mprotect(m->map + 4096, m->maplen - 8192, PROT_READ);
		g_gsize = G; g_lsize = L;
		auto run = [&](size_t g) { g_gid = g; f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); st.work_items++; };
		if (order == 0) for (size_t i = 0; i < G; i++) run(i);
		else if (order == 1) for (size_t i = G; i-- > 0;) run(i);
		else if (order == 2) { for (size_t i = 1; i < G; i += 2) run(i); for (size_t i = 0; i < G; i += 2) run(i); }
		else for (size_t i = 0; i < G; i++) run((i + order - 2) % G);
		for (auto *m : mems) if (m->map && (m->flags & CL_MEM_READ_ONLY)) mprotect(m->map + 4096, m->maplen - 8192, PROT_READ | PROT_WRITE);
		for (auto *m : mems) { size_t slack = 0; if (m->map) slack = m->p - (m->map + 4096); for (size_t i = 0; i < slack; i++) if (m->map[4096 + i] != 0xC7) { misuse("the kernel wrote before the start of a buffer"); break; } rel(m); }
	});
}
cl_int clWaitForEvents(cl_uint n, const cl_event *e) {
	FAULTI();
	if (!n || !e) return CL_INVALID_VALUE;
	cl_int r = CL_SUCCESS;
	for (cl_uint i = 0; i < n; i++) { if (!is((void *)e[i], EVENT)) return CL_INVALID_EVENT; auto *E = (Event *)e[i]; STEP(E->q); if (!E->done && is(E->q, QUEUE)) flush_until(E->q, E); if (E->error) r = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST; }
	return r;
}
cl_int clGetEventInfo(cl_event e, cl_event_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(e, EVENT)) return CL_INVALID_EVENT;
	if (k == CL_EVENT_COMMAND_EXECUTION_STATUS) { cl_int s = ((Event *)e)->done ? ((Event *)e)->error ? ((Event *)e)->error : CL_COMPLETE : CL_QUEUED; return ret(&s, sizeof s, n, v, o); }
	return CL_INVALID_VALUE;
}
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info k, size_t n, void *v, size_t *o) {
	FAULTI();
	if (!is(e, EVENT)) return CL_INVALID_EVENT;
	auto *E = (Event *)e;
	if (!E->profiling || !E->done || E->error) return CL_PROFILING_INFO_NOT_AVAILABLE;
	cl_ulong t = k == CL_PROFILING_COMMAND_END ? 5007500000ull : k == CL_PROFILING_COMMAND_START ? 5000000000ull : 4000000000ull;
	return ret(&t, sizeof t, n, v, o);
}
} // extern "C"
