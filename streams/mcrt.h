// Interface between scenarios (instrumented, in the executable) and the model-checking run time (libmcrt.so)
#pragma once
#include <cstddef>
#include <cstdint>
#define MC_MAXT 6
struct mc_stamp { int tid; uint32_t vc[MC_MAXT]; };
struct mc_entry { int kind; long a, b, c, d; bool ended; mc_stamp begin, end; };
extern "C" {
int mc_self();                                     // model thread id, 0 = controlling thread
unsigned mc_choose(unsigned n);                    // explored non-determinism, 0..n-1
[[noreturn]] void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_event_set(int e);                          // sticky events, 0..63
void mc_event_wait(int e);
bool mc_event_isset(int e);
void mc_stamp_now(mc_stamp *s);
bool mc_hb(const mc_stamp *a, const mc_stamp *b);  // a happens before b
int mc_log(int kind, long a, long b, long c, long d);
void mc_log_end(int i);
int mc_log_count();
const mc_entry *mc_log_get(int i);
int mc_tid(unsigned long pthread);                  // model thread id of a pthread_t
int mc_live_threads();                             // model threads (other than the caller) not yet finished
long mc_live_allocs();                             // live heap blocks allocated by the execution
void mc_nontrivial(const char *outcome);           // records a distinct outcome of an execution
uint8_t *mc_region(int i);                         // two 64 MiB lazily mapped regions, not reset between executions
void mc_step(const void *o);                         // scheduling point of an operation on o that does not synchronise
void mc_fault_alloc(int tid, long k, bool sticky);  // the k-th allocation of a thread from now on fails (sticky: and all later ones); tid -1: none
void mc_fault_thread(long k);                      // no more than k threads can be created from now on; -1: any number
void mc_fault_pause(bool p);
long mc_fault_fired();                             // how many operations were made to fail
bool mc_all_started();                             // every thread created so far has begun, known to the caller through synchronisation
}
struct mc_scenario { const char *name; void (*fn)(const long *args); };
struct mc_plan {
	const char *prop; const char *scen; long args[8];
	int preempt;     // bound on preemptive context switches, -1 = unbounded (every interleaving)
	int spurious;    // bound on spurious wake-ups
	int tier;        // 0: quick and thorough, 1: thorough only, 2: quick only
};
extern "C" int mc_run(int argc, char **argv, const mc_scenario *, const mc_plan *, uint8_t *data_lo, uint8_t *data_hi, void (*warmup)());
