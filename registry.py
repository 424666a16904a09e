"""Which engines decide which property."""

ENGINES = {
    "codec": {
        "build": "codec/build_codec.sh",
        "variants": ["plain", "san"],
        "cmd": ["{B}/codec"],
        "deps": ["/repo/src", "/repo/include", "codec", "common"],
    },
    "streams": {
        "build": "streams/build_streams.sh",
        "variants": ["plain"],
        "cmd": ["{B}/streams"],
        "deps": ["/repo/src", "/repo/include", "streams", "common"],
    },
    "concurrent": {
        "build": "streams/build_streams.sh",
        "variants": ["codec"],
        "cmd": ["{B}/streams"],
        "deps": ["/repo/src", "/repo/include", "streams", "common"],
    },
    "oclthreads": {
        "build": "streams/build_streams.sh",
        "variants": ["ocl"],
        "cmd": ["{B}/streams"],
        "deps": ["/repo/src", "/repo/include", "streams", "ocl", "common"],
    },
    "ocl": {
        "build": "ocl/build_ocl.sh",
        "variants": ["fake", "pocl"],
        "cmd": ["{B}/ocl"],
        "deps": ["/repo/src", "/repo/include", "ocl", "codec", "common"],
    },
    "cryptodev": {
        "build": "cryptodev/build_hw.sh",
        "variants": ["threads", "pthread", "noinfo"],
        "cmd": ["{B}/hw"],
        "deps": ["/repo/src", "/repo/include", "cryptodev", "common"],
    },
    "tools": {
        "build": "tools_engine/build_tools.sh",
        "variants": ["plain"],
        "cmd": ["{B}/tools"],
        "deps": ["/repo/src", "/repo/include", "/repo/README.md", "tools_engine", "common"],
    },
    "ports": {
        "build": "ports/build_ports.sh",
        "variants": ["aix", "cuda", "cudarelaxed", "hls"],
        "cmd": ["{B}/port"],
        "deps": ["/repo/src", "/repo/include", "ports", "codec", "common"],
    },
}

VARIANTS_SAMPLES = ["serial", "optsw", "cryptodev", "streams", "cryptodevstreams", "ocl", "oclinplace", "oclmaybe"]
ENGINES["samples"] = {
    "build": "samples_engine/build_samples.sh",
    "variants": VARIANTS_SAMPLES,
    "cmd": ["{B}/samples"],
    "deps": ["/repo/src", "/repo/include", "/repo/sample", "samples_engine", "ocl", "common"],
}

CODEC_RULE = ("Cases are the members of finite families enumerated completely (listed with their sizes under passes[].families): token "
              "sequences / data sequences over small colliding alphabets / lengths / capacities / alignments. A state is a distinct state of the "
              "reference model of the format reached by a case; a transition is one token or word processed. Each case runs on the real functions with "
              "guard pages and is compared with the model; non-trivial (distinct_nontrivial) = the case produces output or more than one token.")
A_CODEC = ["x86-64 little endian, gcc, the same compile options as the repository's build (-O2 -g -march=native, asserts on)",
           "values outside the enumerated alphabets and lengths are not covered"]


def codec(*extra):
    return {"level": "model_checking", "rule": CODEC_RULE, "assumptions": A_CODEC,
            "technique": "bounded-exhaustive explicit-state exploration of inputs/token sequences on the real code against a reference model of the format",
            "passes": [{"engine": "codec", "variant": "plain"}] + list(extra)}


STREAM_RULE = ("The stream classes (or latch/barrier) of the current tree run on a controlled scheduler: every pthread operation and atomic access is a "
               "scheduling point and every choice of the next thread, of the notified waiter, of a spurious wake-up and of a scenario parameter is explored, "
               "completely or up to the stated number of preemptions, for each plan listed under passes[].families. A state is a distinct happens-before "
               "state (pruned when seen before), a transition one scheduling decision; evaluations = executed schedules, complete or pruned; distinct_nontrivial "
               "= distinct complete histories of callbacks.")
A_STREAM = ["sequentially consistent memory at the granularity of the instrumented operations; plain accesses are checked for data races by vector clocks (property S11) and, when racy, become scheduling points",
            "an abstract codec with scenario-controlled results stands in for the 842 implementation (S13 uses the real ones)",
            "thread counts, block counts, operation sequences and preemption bounds as listed; more threads or preemptions are not covered"]


def stream(technique="stateless model checking of the real code: exhaustive exploration of thread schedules under a controlled scheduler with happens-before state pruning"):
    return {"level": "model_checking", "rule": STREAM_RULE, "assumptions": A_STREAM, "technique": technique,
            "passes": [{"engine": "streams", "variant": "plain"}]}


OCL_RULE = ("The host code and the kernel source of the current tree run completely on a stand-in OpenCL runtime that executes the kernel natively with every "
            "buffer between inaccessible pages, work-items in several orders, and configurable platforms, devices, failing calls and file operations (pass "
            "'fake'), and, for a subset of the families, on the installed OpenCL implementation (pass 'pocl'). Cases are the members of finite families "
            "enumerated completely (sizes under passes[].families), each compared with the reference model of the format. A state is a distinct state of the "
            "reference model (data properties), cache file content (O05) or fault/platform configuration (O07, O09); a transition one token, step or file "
            "operation; non-trivial (distinct_nontrivial) = cases with output, an existing cache file or a fault.")
A_OCL = ["work-items of a kernel run one after the other in the stand-in runtime (the kernel has no communication between work-items)",
         "the stand-in runtime follows the OpenCL 1.2 rules for argument checking, queueing and object lifetimes; the installed pocl is the cross-check",
         "values outside the enumerated alphabets, lengths, chunk sizes and fault positions are not covered"]


def ocl(technique="bounded-exhaustive explicit-state exploration of chunk batches on the real host code and kernel against a reference model of the format", pocl=False):
    return {"level": "model_checking", "rule": OCL_RULE, "assumptions": A_OCL, "technique": technique,
            "passes": [{"engine": "ocl", "variant": "fake"}] + ([{"engine": "ocl", "variant": "pocl"}] if pocl else [])}


HW_RULE = ("The cryptodev interface of the current tree runs with every system call, allocation and thread-specific-data call redirected to a simulated device "
           "and process, in three configurations (C11 threads; POSIX threads; headers without session information). Every combination listed under "
           "passes[].families is executed: call sequences x failing operations, and for several threads every schedule of the redirected operations up to the "
           "stated number of preemptions (stateless search). A state is a distinct (case, schedule); a transition one redirected operation; non-trivial "
           "(distinct_nontrivial) = a fault was injected, several threads ran, or a request with chunks was built.")
A_HW = ["the simulated device stands in for /dev/crypto and follows the interface of the cryptodev-linux fork the code is written for (chunked 842 requests), whose header is re-created from the code's use of it",
        "close() releases the descriptor even when it fails (Linux)", "scheduling points are the redirected calls; plain memory accesses between them are not interleaved"]


def hw(technique):
    return {"level": "model_checking", "rule": HW_RULE, "assumptions": A_HW, "technique": technique,
            "passes": [{"engine": "cryptodev", "variant": v} for v in ("threads", "pthread", "noinfo")]}


TOOLS_RULE = ("The build-time tools of the current tree are built and run on every member of the families listed under passes[].families; their output is compiled and "
              "compared with the input (or the definition of the polynomial). A state is a distinct case, a transition one text or table entry checked.")
A_TOOLS = ["gcc compiles the generated sources", "texts outside the enumerated alphabets and lengths are not covered"]


def tools(technique):
    return {"level": "model_checking", "rule": TOOLS_RULE, "assumptions": A_TOOLS, "technique": technique, "passes": [{"engine": "tools", "variant": "plain"}]}


PORTS_RULE = ("The port's source of the current tree runs on a stand-in for the platform it is written for ({0}). Every member of the families listed under "
              "passes[].families is executed with the buffers between inaccessible pages and compared with the reference model. A state is a distinct state of the "
              "reference model (or case), a transition one token, chunk or call; non-trivial (distinct_nontrivial) = the case produces output or an error.")


def port(technique, what, assumptions, *variants):
    return {"level": "model_checking", "rule": PORTS_RULE.format(what), "assumptions": assumptions + ["values outside the enumerated alphabets, lengths and shapes are not covered"],
            "technique": technique, "passes": [{"engine": "ports", "variant": v} for v in variants]}


SAN = {"engine": "codec", "variant": "san"}

PROPS = {
    "C01": codec(), "C02": codec(), "C03": codec(), "C04": codec(),
    "C05": codec(SAN), "C06": codec(), "C07": codec(), "C08": codec(SAN), "C09": codec(),
    "C15": {"level": "model_checking",
            "rule": ("Two or three threads call the real compressors and decompressors of the current tree on a controlled scheduler. Calls, data, capacities, buffer layouts "
                     "and alignments are enumerated completely (plans under passes[].families); every memory access of the library is monitored with vector clocks, so that "
                     "one execution stands for all interleavings of the calls as long as they do not synchronise, and synchronising operations are scheduling points of which "
                     "every order up to 2 preemptions is explored. Each result is compared with the same call alone. A state is a distinct happens-before state, a transition one "
                     "scheduling decision; evaluations = executions; distinct_nontrivial = distinct combinations of calls, layout and results."),
            "assumptions": ["sequentially consistent memory (unordered conflicting accesses are violations)", "calls into libc (memcmp, stdio) are not monitored, except memcpy, memmove, memset and allocation",
                            "data, capacities, layouts and thread counts outside the enumerated ones are not covered"],
            "technique": "stateless model checking of the real code: controlled scheduler with happens-before race monitor over exhaustively enumerated pairs of calls and buffer layouts",
            "passes": [{"engine": "concurrent", "variant": "codec"}]},
    "S01": stream(), "S02": stream(), "S03": stream(), "S04": stream(), "S05": stream(), "S06": stream(), "S07": stream(), "S08": stream(),
    "S09": stream(), "S10": stream(), "S11": stream(), "S12": stream(),
    "S13": stream("exhaustive exploration of chunk-kind assignments, block orders and schedules of the real streams over the real codecs under a controlled scheduler"),
    "S14": stream("exhaustive enumeration of simulated NUMA topologies, allowed-node sets and failing calls on the real code under a controlled scheduler"),
    "S15": stream("stateless exploration of the real streams under a controlled scheduler: every failing thread creation and allocation of every thread x all schedules up to a preemption bound"),
    "O01": ocl(pocl=True), "O02": ocl(pocl=True), "O03": ocl(pocl=True), "O04": ocl(pocl=True), "O06": ocl(pocl=True), "O08": ocl(pocl=True),
    "O05": ocl("exhaustive exploration of cache file contents, configuration histories, crash points with torn writes, failing file operations and interleavings of two writers on the real code"),
    "O07": ocl("exhaustive fault injection: every OpenCL call of every scenario fails in turn, on the real code"),
    "O10": {"level": "model_checking",
            "rule": ("Two or three threads use the real OpenCL host code of the current tree on a controlled scheduler and a simulated device: shared and own decompressors, cl842_decompress, construction and "
                     "destruction next to decompression, with and without a cached program. Every use of a queue, kernel object, event or file is a scheduling point, and every schedule up to a preemption bound (1 or 2, see passes[].families) "
                     "is explored; memory accesses of the host code are monitored with vector clocks. Every result is compared with the known data. A state is a distinct happens-before state, a transition one "
                     "scheduling decision; evaluations = executions; distinct_nontrivial = distinct combinations of calls, data and options."),
            "assumptions": ["sequentially consistent memory (unordered conflicting accesses are violations)", "OpenCL calls are atomic and thread-safe, except that a kernel object's arguments must not be set while it is used (OpenCL 1.2, Appendix A.2)",
                            "standard streams and file streams inside libstdc++ are not monitored"],
            "technique": "stateless model checking of the real host code: controlled scheduler with happens-before race monitor, simulated OpenCL device",
            "passes": [{"engine": "oclthreads", "variant": "ocl"}]},
    "O09": ocl("exhaustive enumeration of platform and device configurations on the real code"),
    "H01": hw("stateless model checking of the real code on a simulated device: every call sequence x position of failing operations x schedule up to a preemption bound"),
    "H02": hw("bounded-exhaustive enumeration of requests (chunk counts, strides, lengths, capacities, alignments, device results) on the real code against a simulated device"),
    "T01": tools("bounded-exhaustive enumeration of texts and of failing file operations on the real tool, output compiled and compared"),
    "T02": tools("exhaustive enumeration of all 2048 table entries, of the generator and the library, on both byte orders"),
    "A01": port("bounded-exhaustive enumeration of chunk requests and per-call results on the real code against a simulated accelerator",
                "AIX accelerator calls that record their arguments and return enumerated results",
                ["the stand-in follows the documented interface of AIX's accel_compress and accel_decompress"], "aix"),
    "K01": port("bounded-exhaustive explicit-state exploration of token sequences and launch shapes on the real kernel source against a reference model of the format",
                "the kernel compiled for the host, one thread after the other in several orders, inline PTX interpreted instruction by instruction",
                ["the PTX interpreter follows the PTX ISA for the instructions used", "threads of the kernel do not communicate (run one after the other)"], "cuda", "cudarelaxed"),
    "L01": port("bounded-exhaustive explicit-state exploration of token sequences, truncations and raw transfers on the real module against a reference tokenizer",
                "arbitrary-width integers and hardware streams modelled in C++",
                ["the stand-ins for ap_uint and hls::stream follow their documented semantics"], "hls"),
    "P01": {"level": "model_checking",
            "rule": ("Each sample program of the current tree runs as a process whose file, memory and 842 (or OpenCL) calls are redirected to an environment with enumerated outcomes: every "
                     "member of the families listed under passes[].families (file lengths x outcome per chunk x failing call). A state is a distinct case, a transition one redirected call; "
                     "non-trivial (distinct_nontrivial) = something failed or there are several chunks."),
            "assumptions": ["an abstract implementation with enumerated results per chunk stands in for the 842 implementations (OpenCL samples: the real host code and kernel on the stand-in runtime)",
                            "OpenMP regions run sequentially; the threads of the stream samples run freely (schedules are the subject of S01-S14)", "at most two chunks behave differently per run, at most one call fails (thorough: two)"],
            "technique": "exhaustive enumeration of file lengths, per-chunk outcomes and failing calls (fault injection) on the real programs",
            "passes": [{"engine": "samples", "variant": v} for v in VARIANTS_SAMPLES]},
    "C10": codec(), "C11": codec(), "C12": codec(), "C13": codec(),
    "C14": dict(codec(), technique="exhaustive fault injection: for every enumerated call, each allocation it makes fails in turn (alone and with all later ones), on the real code",
                assumptions=A_CODEC + ["allocations go through malloc and its relatives"]),
}
