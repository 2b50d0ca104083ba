"""Tables: build configurations, worlds, and which world/classes decide which property."""

import os

ASAN = ["-fsanitize=address"]
BASE = ["-O1", "-g0", "-fno-omit-frame-pointer", "-w"]

TSAN = ["-O1", "-g0", "-fno-omit-frame-pointer", "-w", "-fPIC", "-fsanitize=thread", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
TRT = ["-std=c++17", "-O2", "-g0", "-w"]

CONFIGS = {
    # exceptions on, CETL debug assertions on
    "e17": {"cxx": "g++", "flags": ["-std=c++17"] + BASE + ASAN + ["-DCETL_ENABLE_DEBUG_ASSERT=1"], "ld": ASAN},
    # the same in C++14 (some components have different code there)
    "e20": {"cxx": "g++", "flags": ["-std=c++20"] + BASE + ASAN + ["-DCETL_ENABLE_DEBUG_ASSERT=1"], "ld": ASAN},
    "e14": {"cxx": "g++", "flags": ["-std=c++14"] + BASE + ASAN + ["-DCETL_ENABLE_DEBUG_ASSERT=1"], "ld": ASAN},
    # exceptions off, assertions off
    "n17": {"cxx": "g++", "flags": ["-std=c++17"] + BASE + ASAN + ["-fno-exceptions"], "ld": ASAN},
    # simulated threads: the world is instrumented, the runtime is not
    "t14": {"cxx": "clang++", "flags": ["-std=c++14"] + TSAN, "rtflags": TRT, "ld": []},
    "t17": {"cxx": "clang++", "flags": ["-std=c++17"] + TSAN, "rtflags": TRT, "ld": []},
}

CONC = {"rt": ["simrt.cpp", "conc_rt.cpp"], "shared": True,
        "ld": ["-Wl,-z,now"] + ["-Wl,--wrap=%s" % f for f in (
            "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp",
            "__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once",
            "pthread_self", "sched_yield")]}

WORLDS = {
    "glob": dict(CONC, src=["world_glob.cpp"]),
    "thr": dict(CONC, src=["world_thr.cpp"]),
    "hand": dict(CONC, src=["world_hand.cpp"]),
    # not optimised: the compiler drops destructors of static objects that do nothing it can see
    "exit": dict(CONC, src=["world_exit.cpp"], srcflags={"world_exit.cpp": ["-O0"]}),
    "nest": {"src": ["world_nest.cpp"]},
    "stack": {"src": ["world_stack.cpp"]},
    "fn": {"src": ["world_fn.cpp"]},
    "mono": {"src": ["world_mono.cpp"], "flags": ["-fsanitize=alignment", "-fsanitize-undefined-trap-on-error"]},
    "pa": {"src": ["world_pa.cpp"]},
    "o1": {"src": ["world_o1.cpp"], "flags": ["-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "stub")]},
    "sys": {"src": ["world_sys.cpp"],
            "ld": ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc")]},
    "buf": {"src": ["world_buf.cpp"]},
    "opt": {"src": ["world_opt.cpp"]},
    "var": {"src": ["world_var.cpp"]},
    "ptr": {"src": ["world_ptr.cpp"]},
    "uv": {"src": ["world_uv.cpp"]},
    "bool": {"src": ["world_bool.cpp"]},
    "vla": {"src": ["vla_ti.cpp", "vla_t1.cpp", "vla_t2.cpp", "vla_t3.cpp", "vla_main.cpp"]},
}

CRASH = ["crash", "asan", "assert", "terminate", "hang"]


def job(world, config, quick, **kw):
    return dict(world=world, config=config, quick=quick, **kw)


BOOL = [job("bool", "e17", 120000), job("bool", "n17", 60000)]
UV = [job("uv", "e17", 120000), job("uv", "n17", 60000)]
FN = [job("fn", "e17", 120000), job("fn", "n17", 60000)]
BUF = [job("buf", "e17", 120000), job("buf", "n17", 60000)]
MONO = [job("mono", "e17", 100000), job("mono", "n17", 50000)]
PA = [job("pa", "e17", 80000), job("pa", "n17", 40000)]
SYS = [job("sys", "e17", 120000), job("sys", "n17", 60000)]
O1 = [job("o1", "e17", 120000), job("o1", "n17", 60000)]
GLOB = [job("glob", "t14", 60000), job("glob", "t17", 60000)]
THR = [job("thr", "t14", 10000), job("thr", "t17", 10000)]
EXIT = [job("exit", "t14", 15000), job("exit", "t17", 15000)]
HAND = [job("hand", "t14", 6000), job("hand", "t17", 6000)]
NEST = [job("nest", "e17", 50000), job("nest", "e14", 30000), job("nest", "e20", 20000)]
STACK = [job("stack", "e17", 200000), job("stack", "n17", 100000)]
OPT = [job("opt", "e17", 150000), job("opt", "n17", 20000)]
VAR = [job("var", "e17", 150000), job("var", "e14", 60000), job("var", "n17", 20000)]
PTR = [job("ptr", "e17", 100000), job("ptr", "n17", 50000)]
VLA = [job("vla", "e17", 150000, share=2.0), job("vla", "n17", 60000)]

ALL = ("vla", "bool", "uv", "fn", "ptr", "buf", "mono", "pa", "sys", "o1", "opt", "var", "stack")
NOEXC = [job(w, "n17", 20000) for w in ALL]
EXC = [job(w, "e17", 20000) for w in ALL]

N_VLA = ("Seeded random histories of up to 40 operations over 4 arrays and 3 memory sources in 19 element/allocator combinations; "
         "fault-free, sparse, dense and systematic single-fault modes; with and without exceptions.")

N_BOOL = ("Seeded random histories over 4 packed bool arrays in 5 allocator combinations, with and without exceptions, with "
          "allocation faults; plain vector of bytes as model.")

N_UV = ("Seeded random histories over 5 unbounded variants in 12 footprint/copyable/movable/resource combinations, 6 value types, 3 "
        "memory resources, with allocation and constructor faults; with and without exceptions.")

N_FN = ("Seeded random histories over 5 function objects in 3 footprint/resource combinations, 4 target types, 3 memory resources, "
        "with allocation, constructor and call faults; with and without exceptions.")

N_PTR = ("Seeded random histories over factory-made unique pointers, interface pointers and memory deleters on 2 memory resources, "
         "6 object/allocator combinations, with allocation and constructor faults; with and without exceptions.")

N_BUF = ("Seeded random histories of several clients of one single-buffer resource (buffer, array and delegate forms, sizes 0 to 4096, "
         "all buffer offsets, upstream limits, 5 upstream reallocation behaviours), upstream faults and quotas; with and without exceptions.")

N_MONO = ("Seeded random histories of several clients of two monotonic resources (7 construction forms, side by side or stacked), sizes from "
          "zero to the whole address space, alignments to 4096, upstream faults, quotas and size limits; with and without exceptions.")

N_PA = ("Seeded random histories over single objects, pairs, nested vectors, maps and lists on 3 memory resources, 6 element types, all "
        "construct() forms, with allocation and constructor faults; without exceptions only direct use of the allocator.")

N_SYS = ("Seeded random histories of several clients of the system resources over a simulated platform allocator (malloc family and "
         "operator new), 5 reallocation behaviours, exhaustion, unsupported alignments; with and without exceptions.")

N_O1 = ("Seeded random histories of several clients of two o1heap adaptors over a stand-in heap with injected refusals and exhaustion; "
        "with and without exceptions.")

N_OPT = ("Seeded random histories over 4 optionals of 7 contained types (each special member may fail), copies, moves, conversions, "
         "swaps, emplacement, access and comparison; fault-free, sparse, dense and systematic single-fault modes.")

N_VAR = ("Seeded random histories over 4 variants in 8 alternative sets (throwing, nothrow, trivially destructible, trivial, move-only, "
         "repeated alternatives), C++14 and C++17 builds; fault-free, sparse, dense and systematic single-fault modes.")

N_GLOB = ("Seeded random schedules of 2 to 4 simulated threads that read and replace the global memory resources and use variants, from a "
          "fresh static image or an initialised one; preemption at every access to shared memory, happens-before race detection, "
          "linearizability of the recorded calls; C++14 and C++17.")

N_THR = ("Seeded random schedules of 2 to 4 simulated threads: threads with objects of their own of every kind (with failing "
         "allocations and copies), compared with the same thread alone; and threads that read the same objects of every kind; "
         "happens-before race detection; C++14 and C++17.")

N_NEST = ("Seeded random histories over 2 to 4 sets of objects of every kind; user code called by the library (constructors, copies, moves, "
          "comparisons, destructors, call targets, visitors, memory resources) performs operations on another set before it returns, up to "
          "4 deep, with failing allocations, copies and calls; compared with each set alone; C++14, C++17 and C++20.")

N_EXIT = ("Seeded random histories of 1 or 2 threads with static objects that hold objects of every kind and memory of the global resources; a "
          "part of the operations is made by their destructors at the simulated end of the program, in reverse order of registration with "
          "whatever the library registered; compared with the same operations elsewhere; C++14 and C++17.")

N_HAND = ("Seeded random schedules of 2 to 4 simulated threads that hand 1 to 3 sets of objects of every kind to each other, behind a lock or "
          "through a mailbox, with failing allocations and copies, objects that are made, used and destroyed by different threads, and threads "
          "that end earlier than what they made; compared with the same operations in one thread; happens-before race detection; C++14 and "
          "C++17.")

N_STACK = ("Seeded random histories over 8 objects of 7 kinds on random trees of up to 5 stacked memory resources over simulated memory or "
           "the system resource, with failures on every connection, quotas, release, tear-down and rebuild; with and without exceptions.")

N_NOEXC = ("All single-threaded worlds built without exceptions and without debug assertions: seeded random histories with allocation "
           "faults, quotas and refused reallocations in every component.")

N_EXC = ("All single-threaded worlds built with exceptions: every failing allocation and every throwing constructor, assignment, call and "
         "comparison carries an identity that is compared with what reaches the caller.")

THREADS = {"level": "exploration",
           "rule_extra": "; with threads also every switch, atomic operation, lock and wait with its thread",
           "state_extra": "; with threads: hash of the position of every thread inside its current call (number of shared accesses "
                          "done) and of who waits, taken at every switch"}

CHECKS = {
    "C01": {"level": "fault_enumeration", "classes": ["content", "transfer", "atomic", "exc", "noexc", "memory", "lifetime"] + CRASH,
            "jobs": VLA, "note": N_VLA},
    "C02": {"level": "fault_enumeration", "classes": ["memory", "lifetime"] + CRASH, "jobs": VLA, "note": N_VLA},
    "C03": {"level": "fault_enumeration", "classes": ["atomic", "exc", "noexc", "content", "memory", "lifetime"] + CRASH, "jobs": VLA,
            "note": N_VLA},
    "C04": {"level": "fault_enumeration", "classes": ["bound", "memory"] + CRASH, "jobs": VLA + BOOL, "note": N_VLA},
    "C05": {"level": "fault_enumeration", "classes": ["transfer", "propagate", "memory", "lifetime"] + CRASH, "jobs": VLA,
            "note": N_VLA},
    "C06": {"level": "fault_enumeration", "classes": ["content", "transfer", "atomic", "exc", "noexc", "memory", "propagate"] + CRASH,
            "jobs": BOOL, "note": N_BOOL},
    "C07": {"level": "fault_enumeration", "classes": ["content", "transfer", "atomic", "exc", "noexc", "lifetime", "memory", "propagate"] + CRASH,
            "jobs": UV, "note": N_UV},
    "C08": {"level": "fault_enumeration", "classes": ["memory", "lifetime", "propagate"] + CRASH, "jobs": UV, "note": N_UV},
    "C09": {"level": "fault_enumeration", "classes": ["content", "transfer", "atomic", "exc", "noexc", "lifetime", "memory", "propagate"] + CRASH,
            "jobs": FN, "note": N_FN},
    "C10": {"level": "fault_enumeration", "classes": ["content", "transfer", "atomic", "exc", "noexc", "lifetime", "memory"] + CRASH,
            "jobs": PTR, "note": N_PTR},
    "C11": {"level": "fault_enumeration", "classes": ["content", "bound", "memory"] + CRASH,
            "jobs": BUF, "note": N_BUF},
    "C12": {"level": "fault_enumeration", "classes": ["atomic", "exc", "noexc", "memory", "content"] + CRASH,
            "jobs": BUF, "note": N_BUF},
    "C13": {"level": "fault_enumeration", "classes": ["content", "bound", "atomic", "exc", "noexc", "memory"] + CRASH,
            "jobs": MONO, "note": N_MONO},
    "C14": {"level": "fault_enumeration", "classes": ["memory", "content", "bound", "atomic"] + CRASH,
            "jobs": MONO, "note": N_MONO},
    "C15": {"level": "fault_enumeration", "classes": ["content", "transfer", "bound", "propagate", "exc", "noexc", "memory", "lifetime"] + CRASH,
            "jobs": PA, "note": N_PA},
    "C16": {"level": "fault_enumeration", "classes": ["content", "bound", "atomic", "exc", "noexc", "memory", "propagate"] + CRASH,
            "jobs": SYS, "note": N_SYS},
    "C17": {"level": "fault_enumeration", "classes": ["content", "bound", "atomic", "exc", "noexc", "memory"] + CRASH,
            "jobs": O1, "note": N_O1},
    "C18": dict(THREADS, classes=["content", "race", "memory"] + CRASH, jobs=GLOB, note=N_GLOB),
    "C19": dict(THREADS, classes=["content", "race", "memory"] + CRASH, jobs=GLOB, note=N_GLOB),
    "C20": dict(THREADS, classes=["content", "race", "memory"] + CRASH, jobs=THR, note=N_THR),
    "C21": dict(THREADS, classes=["content", "race", "memory"] + CRASH, jobs=THR, note=N_THR),
    "C22": {"level": "fault_enumeration", "classes": ["content", "transfer", "lifetime", "exc", "atomic", "memory"] + CRASH,
            "jobs": OPT, "note": N_OPT},
    "C23": {"level": "fault_enumeration", "classes": ["content", "lifetime", "exc", "atomic", "transfer", "memory"] + CRASH,
            "jobs": VAR, "note": N_VAR},
    "C24": {"level": "fault_enumeration", "classes": ["atomic", "content", "lifetime", "exc", "transfer"] + CRASH,
            "jobs": VAR, "note": N_VAR},
    "C25": {"level": "fault_enumeration", "classes": ["content", "memory", "bound", "atomic", "lifetime", "exc"] + CRASH,
            "jobs": STACK, "note": N_STACK},
    "C26": {"level": "fault_enumeration", "classes": ["content", "transfer", "memory", "bound", "atomic", "lifetime", "noexc", "propagate"] + CRASH,
            "jobs": NOEXC, "note": N_NOEXC},
    "C27": {"level": "fault_enumeration", "classes": ["exc", "terminate", "crash", "assert"], "jobs": EXC, "note": N_EXC},
    "C32": {"level": "fault_enumeration", "classes": ["frugal", "content"] + CRASH, "jobs": VLA + BOOL, "note": N_VLA + " " + N_BOOL},
    "C33": {"level": "fault_enumeration", "classes": ["frugal", "content", "memory"] + CRASH, "jobs": UV + FN, "note": N_UV + " " + N_FN},
    "C34": {"level": "fault_enumeration", "classes": ["content", "memory", "lifetime"] + CRASH, "jobs": NEST, "note": N_NEST},
    "C35": dict(THREADS, classes=["content", "memory", "lifetime", "race"] + CRASH, jobs=EXIT, note=N_EXIT),
    "C36": dict(THREADS, classes=["content", "race", "memory", "lifetime"] + CRASH, jobs=HAND, note=N_HAND),
}

NOT_APPLICABLE = {
    "C28": "A span is a pure value computation on a pointer and a length: no time, concurrency, I/O, allocation, user code that can "
           "fail or second party, so there is no schedule and no fault for a simulator to decide; input enumeration would be needed.",
    "C29": "String view operations are pure functions of their arguments: nothing to schedule and no fault to inject; the property "
           "is about inputs only.",
    "C30": "The cast is a pure function of a class hierarchy fixed at compile time: no schedule and no fault point.",
    "C31": "Decided entirely at compile time: there is no execution to simulate.",
}
