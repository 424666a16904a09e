// A stand-in OpenCL runtime: executes the kernel source it is given natively (clang -x cl), one work-item after the
// other in a chosen order, with every buffer between inaccessible pages; commands stay queued until something waits
// for them; every API call can be made to fail; platforms, devices and driver behaviour are configurable.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "iohook.h"
namespace fakecl {
struct Dev { bool gpu, available; std::string name; };
struct Plat { std::string name; std::vector<Dev> devs; };
struct Config {
	std::vector<Plat> plats = {{"fake platform", {{false, true, "fake cpu"}}}};
	int order = 0;              // of the work-items: 0 ascending, 1 descending, 2 odd ones first, >=3: rotated by order-2
	bool lazy = true;           // run commands only when somebody waits
	uint8_t fill = 0xA5;        // content of new device memory
	size_t binary_size = 9000;  // size of a program binary
	bool late_reject = false;   // unknown binaries are rejected when building rather than when creating the program
	long fail_at = -1;          // index of the API call that fails
	long exec_fail_at = -1;     // index of the kernel launch that is accepted but does not run
	int exec_fail_code = -5;
	bool sparse = false;        // allow huge buffers, with unspecified content
	int fail_code = -5;         // CL_OUT_OF_RESOURCES
};
extern Config cfg;
struct Stats {
	long calls;                 // fallible API calls
	long from_source, from_binary, builds, launches, work_items, exec_failed;
	std::string last_failed;    // name of the call that was made to fail
	std::string misuse;         // first violation of the OpenCL rules
	std::string queue_device;   // device of the queue created last
	std::string ctx_devices;    // devices of the context created last
	std::string launched_key;   // program (source and options) executed last
	std::string options;        // of the last build
	std::vector<std::string> call_names;
};
extern Stats st;
extern bool record_names;
long live();                        // objects not yet released
std::string live_desc();
void reset();                       // forget objects and statistics, default configuration
extern void (*step)(const void *);                  // about to use an object other threads may use
extern void (*touch)(const void *, size_t, bool);   // memory the call reads or writes
extern uint8_t *(*devmem)(size_t);                  // other source of device memory (no guard pages, nothing is freed)
extern std::string kerndir;         // where compiled kernels are kept
extern std::string compile_error;   // harness failure
}
