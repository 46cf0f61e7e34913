"""What each property's check runs."""

HB = ("Values are sequentially consistent; weaker memory orders are judged by a vector-clock happens-before race "
      "detector on the orders the code declares, so an ordering that is too weak shows as a race, not as a stale value.")
SCHED = ("Context switches happen at every access to simulated-heap or global memory, every atomic operation and every "
         "intercepted libc/pthread call, not between instructions that touch only registers or the thread's own stack.")
SAMPLED = "Schedules and faults are sampled by seed, not enumerated."

STUB_THREADS = "thread scheduling, pthread mutexes/keys/creation/naming, clocks and sleeping (simulated)"
STUB_HEAP = "malloc/operator new (simulated heap with bounds, lifetime and reuse control)"

CHECKS = {
    "C01": dict(
        jobs=[dict(src="refcount", scens=["refcount"])],
        probes=["abandoned", "handover", "bulk64k"],
        real=["amtl/am-refcounting-threadsafe.h: RefcountedThreadsafe", "libstdc++ std::atomic"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C02": dict(
        jobs=[dict(src="refcount", scens=["refcount_virtual"])],
        probes=["abandoned", "handover", "bulk64k"],
        real=["amtl/am-refcounting-threadsafe.h: VirtualRefcountedThreadsafe, KE_IMPL_REFCOUNTING_TS",
              "amtl/am-refcounting.h: IRefcounted", "libstdc++ std::atomic"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C03": dict(
        jobs=[dict(src="atomicref", scens=["atomicref"])],
        probes=["crash", "hold"],
        real=["amtl/am-refcounting-threadsafe.h: AtomicRef, RefcountedThreadsafe", "amtl/am-refcounting.h: RefPtr",
              "libstdc++ std::atomic"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C04": dict(
        jobs=[dict(src="atomicref", scens=["atomicref_live"])],
        probes=["dtor-get", "dtor-clear", "dtor-assign", "hold"],
        real=["amtl/am-refcounting-threadsafe.h: AtomicRef, RefcountedThreadsafe", "amtl/am-refcounting.h: RefPtr",
              "libstdc++ std::atomic"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED,
                     "Progress is judged by a bound of 60000 simulated steps per run under a scheduler that is fair in the "
                     "long run once injected stalls have ended."]),
    "C05": dict(
        jobs=[dict(src="refptr", scens=["refptr"])],
        probes=["child", "crash", "handover", "many", "self-assign", "self-move", "unwind"],
        real=["amtl/am-refcounting.h: RefPtr, Refcounted, IRefcounted, AdoptRef",
              "amtl/am-refcounting-threadsafe.h: RefcountedThreadsafe"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C06": dict(
        jobs=[dict(src="threadlocal", scens=["threadlocal"])],
        probes=["crash", "rebuild"],
        real=["amtl/am-threadlocal.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C07": dict(
        jobs=[dict(src="threadlocal", scens=["threadlocal_exhaust"])],
        probes=["abort", "alloc-refused", "rebuild"],
        real=["amtl/am-threadlocal.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C08": dict(
        jobs=[dict(src="mutex", scens=["mutex"])],
        probes=["cv-wait", "scoped-lock", "try-ok"],
        real=["amtl/am-mutex.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C09": dict(
        jobs=[dict(src="thread", scens=["thread"])],
        probes=["copy-failed", "create-failed", "named", "no-memory", "unnamed", "renamed"],
        real=["amtl/am-thread.h", "libstdc++ std::thread"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[HB, SCHED, SAMPLED]),
    "C10": dict(
        jobs=[dict(src="hash", scens=["hash", "hash_limit", "hash_big"], ignore=["lifetime", "policy", "leak", "overflow", "memory-use", "copied"]),
              dict(src="hashpol", scens=["hash_policy"], ignore=["lifetime", "policy", "leak", "overflow", "memory-use"])],
        probes=["big4k", "add-cancelled", "add-failed", "budget", "clear", "init-failed", "init-retried", "iter-erase", "move", "shared-lookup",
                "grow-overflow"],
        real=["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
        stub=["allocation policy (fallible, budgeted)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C11": dict(
        jobs=[dict(src="hash", scens=["hash", "hash_limit", "hash_big"], ignore=["map", "spurious-failure"]),
              dict(src="hashpol", scens=["hash_policy"], ignore=["map", "spurious-failure", "unreported"])],
        probes=["add-cancelled", "add-failed", "budget", "clear", "huge-init", "init-failed", "iter-erase", "move", "overflow", "grow-overflow"],
        real=["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
        stub=["allocation policy (fallible, budgeted)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C12": dict(
        jobs=[dict(src="fixedarray", scens=["fixedarray", "fixedarray_big"])],
        probes=["array64k", "big-equal", "assign-cancelled", "assign-to-failed", "budget", "construction-cancelled", "equal-length", "failed-array", "move", "overflow", "refused", "self-assign"],
        real=["amtl/am-fixedarray.h"],
        stub=["allocation policy (fallible, budgeted)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "An array whose allocation failed is not copied from (the library asserts nothing about it)."]),
    "C13": dict(
        jobs=[dict(src="sysalloc", scens=["sysalloc"])],
        probes=["abort-oom", "abort-overflow", "survived"],
        real=["amtl/am-allocator-policies.h: SystemAllocatorPolicy", "amtl/am-hashtable.h", "amtl/am-hashmap.h",
              "amtl/am-hashset.h", "amtl/am-fixedarray.h"],
        stub=["abort() (ends the simulated run)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C16": dict(
        jobs=[dict(src="strings", scens=["strbound"])],
        probes=["huge-buffer", "append", "copy", "copyn", "copyn-short-source", "cut", "fits", "format-failed", "no-room"],
        real=["amtl/am-string.h: SafeVsprintf, SafeSprintf, SafeStrcpy, SafeStrcpyN, SafeStrcat", "amtl/os/am-path.h",
              "glibc vsnprintf (failure injected in front of it)"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Formats and arguments contain no NUL character."]),
    "C17": dict(
        jobs=[dict(src="strings", scens=["stralloc"])],
        probes=["bad-alloc", "gave-up", "right"],
        real=["amtl/am-string.h: Sprintf, SprintfArgs, StringPrintf, StringPrintfVa",
              "glibc vsnprintf and libstdc++ std::string (failures injected in front of them)"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Formats and arguments contain no NUL character."]),
    "C14": dict(
        jobs=[dict(src="sharedlib", scens=["sharedlib"])],
        probes=["long-path", "long-symbol", "adopted", "message", "message-cut", "no-memory", "no-symbol", "open-failed", "opened", "symbol"],
        real=["amtl/os/am-shared-library.h", "amtl/am-refcounting.h", "amtl/am-string.h: SafeStrcpy"],
        stub=["dlopen, dlsym, dlclose, dlerror (a loader with 16 libraries, some missing, and injected failures)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "A SharedLib object is used by one thread (it is not reference counted atomically); the loader is shared."]),
    "C19": dict(
        jobs=[dict(src="syserr", scens=["syserr"])],
        probes=["cut", "fits", "no-room"],
        real=["amtl/os/am-system-errors.h", "amtl/am-string.h: SafeSprintf", "glibc's message table"],
        stub=["strerror (its shared buffer), strerror_r (both permitted ways of returning the text)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "The Linux/glibc branch of the header is what runs."]),
    "C15": dict(
        jobs=[dict(src="fsutil", scens=["fsutil"], scratch=True)],
        probes=["changed-meanwhile", "created", "mutation", "no", "not-created", "permissions", "query-failed", "socket", "yes"],
        real=["amtl/os/am-fsutil-posix.h", "the kernel's file system, in a scratch directory per run"],
        stub=["failures of stat and mkdir are injected in front of the system calls", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "The checks run as root: refusals for lack of permission occur as injected failures only.",
                     "What was true when is established by asking the kernel directly after every change."]),
    "C18": dict(
        jobs=[dict(src="raii", scens=["raii"])],
        probes=["cancelled", "cancelled-cleanup", "caught", "guard-cancelled", "left-early", "moved", "moved-cancelled"],
        real=["amtl/am-raii.h", "C++ stack unwinding (libgcc, libstdc++)"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Callbacks of guards, and the assignment that restores a saved value, do not throw themselves."]),
    "C20": dict(
        jobs=[dict(src="function", scens=["function"])],
        probes=["cancelled", "copy-empty", "failed", "received", "self-assign"],
        real=["amtl/am-function.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Moving a callable may not fail (copying it may)."]),
    "C22": dict(
        jobs=[dict(src="maybe", scens=["maybe"])],
        probes=["assign-empty", "assign-value", "cancelled", "failed", "self-assign"],
        real=["amtl/am-maybe.h", "amtl/am-storagebuffer.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C21": dict(
        jobs=[dict(src="pqueue", scens=["pqueue", "pqueue_big"])],
        probes=["queue128k", "bad-alloc", "cancelled-add", "crash", "moved", "popped", "unlocked-peek"],
        real=["amtl/am-priority-queue.h", "amtl/am-mutex.h", "libstdc++ std::vector"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Moving an element and comparing elements may not fail (copying and constructing one may)."]),
    "C23": dict(
        jobs=[dict(src="seqs", scens=["seqs"])],
        probes=["plain", "alias", "bad-alloc", "cancelled-insert", "crash", "deque-popped", "extended", "half-way", "handed-over"],
        real=["amtl/am-vector.h", "amtl/am-deque.h", "amtl/am-mutex.h", "libstdc++ std::vector, std::deque"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "Moving an element may not fail (copying and constructing one may)."]),
    "C24": dict(
        jobs=[dict(src="inlinelist", scens=["inlinelist"]), dict(src="inlinelist", scens=["inlinelist_strict"], weight=0.02)],
        probes=["crash", "erased", "giant", "moved", "orphaned", "self-removed"],
        real=["amtl/am-inlinelist.h", "amtl/am-mutex.h"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C25": dict(
        jobs=[dict(src="strsplit", scens=["strsplit"])],
        probes=["bad-alloc", "join", "split"],
        real=["amtl/am-string.h: Split, Join, case conversion and comparison", "libstdc++ std::string, std::vector"],
        stub=[STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED]),
    "C27": dict(
        jobs=[dict(src="timefmt", scens=["timefmt"])],
        probes=["any-fields", "backwards", "bad-alloc", "before-1970", "beyond-32-bits", "formatted"],
        real=["amtl/am-time.h", "libstdc++ std::chrono, std::ostringstream, std::put_time", "glibc strftime"],
        stub=["the clock (simulated, jumps)", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "The C locale.", "Conversions of the format that a locale defines, and years beyond 64-bit nanoseconds, are not tried."]),
    "C26": dict(
        jobs=[dict(src="argparser", scens=["argparser"])],
        probes=["accepted", "halted", "help", "message", "parse-failed", "rejected", "reset", "setup-failed", "static", "usage-no-memory", "usage-unwritable"],
        real=["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp", "libstdc++ and glibc string functions (watched)"],
        stub=["the stream usage() writes to", STUB_THREADS, STUB_HEAP],
        assumptions=[SCHED, SAMPLED, "A parser and its options are used by one thread at a time.",
                     "With inline values enabled, the form -x= with an empty value is not tried (the code's documentation leaves it open)."]),
}
