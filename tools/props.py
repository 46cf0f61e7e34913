#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from anywhere; both are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

TS = "amtl/am-refcounting-threadsafe.h"
RC = "amtl/am-refcounting.h"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))


prop("C01", "RefcountedThreadsafe: destroyed exactly once, after the last reference",
     "An object derived from RefcountedThreadsafe whose references are taken and dropped by several threads at once is "
     "destroyed exactly once, by the release that drops the last reference, and never while another reference is held. "
     "Release() returns false to exactly that caller and true to all others, and everything a thread did to the object "
     "before releasing its reference happens-before the destructor. No reference is lost or invented, however many there "
     "are.",
     ["schedules", "crash_points", "programs"],
     "every interleaving of AddRef/Release by any number of threads, including threads that die holding references",
     "Tests release from one thread. The losing interleavings of two decrements need a preemption inside Release().",
     [TS], [("atomic reference count", TS + ": RefcountedThreadsafe::AddRef/Release")])

prop("C02", "VirtualRefcountedThreadsafe: destroyed exactly once, after the last reference",
     "An object derived from VirtualRefcountedThreadsafe (or one that forwards IRefcounted to RefcountedThreadsafe with "
     "KE_IMPL_REFCOUNTING_TS) that is shared between threads is destroyed exactly once, through the most derived "
     "destructor, when its last reference is released through any base, and never earlier. Everything a thread did to "
     "the object before releasing its reference happens-before the destructor, and no reference is lost or invented.",
     ["schedules", "crash_points", "programs"],
     "every interleaving of AddRef/Release by any number of threads through any base class, in both build modes",
     "Nothing in the test suite uses the class, let alone from two threads.",
     [TS, RC], [("atomic reference count", TS + ": VirtualRefcountedThreadsafe::AddRef/Release"),
                ("forwarding macro", TS + ": KE_IMPL_REFCOUNTING_TS")])

prop("C03", "AtomicRef is a linearizable register of references",
     "Concurrent reads (get) and writes (assignment of an object or null) of one AtomicRef behave as if each happened "
     "atomically at one moment between its call and its return: a read returns the value of the latest write, with a "
     "reference of its own. An object is never destroyed while it is stored or while a reader holds the reference it "
     "got, each object no longer stored or held is destroyed exactly once, and what a writer did before storing an "
     "object is visible to whoever reads it.",
     ["schedules", "histories", "crash_points"],
     "every history of concurrent get/assign by any number of threads, threads dying between operations included",
     "The tests never share an AtomicRef between threads; the read-then-addref race it exists to prevent needs a "
     "preemption between two instructions.",
     [TS], [("tag-bit spin lock around the pointer", TS + ": AtomicRef::lock/unlock"),
            ("reference taken under the lock", TS + ": AtomicRef::get/operator=")])

prop("C04", "AtomicRef operations always finish, even when a destructor re-enters",
     "Every get and every assignment of an AtomicRef finishes within a bounded number of steps once other threads are "
     "scheduled fairly, whatever the contention. This includes assignments that destroy the old object when its "
     "destructor itself reads, clears or assigns the same AtomicRef: no lock is held while user code runs in a "
     "destructor.",
     ["schedules", "programs"],
     "every fair schedule, every program of reads and writes including re-entrant ones from destructors",
     "Tests are single-threaded, and no test object has a destructor that touches the AtomicRef.",
     [TS], [("old value released after unlock", TS + ": AtomicRef::operator="),
            ("spin with yield", TS + ": AtomicRef::lock")])

prop("C05", "RefPtr/AlreadyRefed conserve references under any use and unwinding",
     "Through any sequence of copies, moves, assignments (to itself and across types), take/forget/AdoptRef, scope exits "
     "and stack unwinding, each RefPtr or AlreadyRefed accounts for exactly one reference: an object is destroyed exactly "
     "once, when the last of them goes away. The value being assigned is held before the old one is dropped, so a pointer "
     "may be replaced by one that only its old target keeps alive (p = p->next), and a destructor that runs because of an "
     "assignment finds the new value in that pointer. Copying a pointer to itself, or moving it to itself, changes nothing. A copy of a "
     "refcounted object starts without references, and an object assigned to keeps its own.",
     ["programs", "schedules", "fault_sequences"],
     "every sequence of pointer operations over object graphs, unwinding at any point, hand-over between threads",
     "Tests sample a few sequences on objects without owned children; none unwinds, hands over or re-enters.",
     [RC], [("ownership transfer", RC + ": RefPtr/AlreadyRefed constructors, assignments, take, forget"),
            ("count", RC + ": Refcounted, VirtualRefcounted, KE_IMPL_REFCOUNTING")])

prop("C06", "ThreadLocal: each thread sees exactly its own latest value",
     "Reading a ThreadLocal in a thread returns the value that thread stored last, or a default (null/zero) value if that "
     "thread has not stored any, whatever other threads do with it at the same time, including racing to make its first "
     "use, and including slots of earlier ThreadLocals that the system hands out again. A ThreadLocal uses exactly one "
     "system slot and gives it back when destroyed.",
     ["schedules", "histories", "crash_points"],
     "every interleaving of get/set/allocate by any number of threads over several ThreadLocals created and destroyed",
     "The threaded test lets one other thread touch an already initialised value; racing first uses are never exercised.",
     ["amtl/am-threadlocal.h"],
     [("lazy slot allocation", "amtl/am-threadlocal.h: ThreadLocal::allocate"),
      ("access to the slot", "amtl/am-threadlocal.h: ThreadLocal::get/set")])

prop("C07", "ThreadLocal: exhausted or failing system slots are reported, never silent",
     "When the system refuses a slot, allocate() returns false (and may be retried later with success), and storing a "
     "value aborts the process, as it does when the system refuses to store; no store is ever silently dropped, no thread "
     "ever reads a value it did not store, and no slot is leaked or used that the ThreadLocal does not own. An allocate() "
     "that returns true means that later stores do not need a new slot.",
     ["fault_sequences", "schedules"],
     "every sequence of slot-creation and store failures, in every interleaving of the threads racing to allocate",
     "A test cannot make the operating system run out of slots at a chosen moment; nothing in the suite injects it.",
     ["amtl/am-threadlocal.h"],
     [("failure handling", "amtl/am-threadlocal.h: ThreadLocal::set/allocate/internalAllocate")])

prop("C08", "Mutex: mutual exclusion, and owner assertions that are right",
     "At most one thread at a time is between a successful lock() or try_lock() and the matching unlock(), and what it did "
     "there is visible to the next owner; lock() returns once the mutex is free, with std::lock_guard, std::unique_lock, "
     "std::scoped_lock and condition variables too. In debug builds AssertCurrentThreadOwns() passes in the thread that "
     "holds the mutex, however it got it, and fails in every other thread and when nobody holds it.",
     ["schedules", "fault_sequences", "crash_points"],
     "every interleaving of lock/try_lock/unlock/wait by several threads, with failing try-locks and dying threads",
     "No test uses the mutex; which thread asserts at which moment is a matter of the schedule.",
     ["amtl/am-mutex.h"],
     [("owner tracking", "amtl/am-mutex.h: Mutex::lock/try_lock/unlock/AssertCurrentThreadOwns")])

prop("C09", "NewThread runs its function exactly once, with its own copies, under its name",
     "NewThread runs the given callable exactly once, in a new thread, with its own copies (or moved-in values) of the "
     "arguments and of the name, so the caller may change, free or let go of its originals as soon as NewThread returns. "
     "The callable starts after the system was asked to give the thread that name, and runs even if that is refused. If the system cannot "
     "create the thread, memory runs out or copying an argument fails, an exception says so, the callable never runs and nothing is leaked.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of creator and new thread, every failure of thread creation, naming, allocation and argument copying",
     "Tests cannot delay the new thread past the end of the caller's scope nor make thread creation fail.",
     ["amtl/am-thread.h"],
     [("bound callable and copied name", "amtl/am-thread.h: NewThread"), ("naming", "amtl/am-thread.h: SetThreadName")])

HT, HM, HS = "amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"
prop("C10", "Hash containers are exact maps, also when allocations fail",
     "HashTable, HashMap and HashSet contain exactly the keys (with their values) added and not since removed or cleared: "
     "find, findForAdd, has, elements and iteration (each element exactly once, also while erasing through the iterator) "
     "agree with that through any history of growth, shrinking, removal, clearing and moving of the container, for any "
     "hash function. An add or init fails only if the allocation policy refused memory or the size limit was exceeded, "
     "reports it by returning false, and leaves the container as it was; it can then be retried. If constructing the element throws "
     "during an add, the exception gets out and the container holds what it held (moving elements is taken not to throw). Lookups leave the container "
     "unchanged, so several threads may look up at once.",
     ["histories", "fault_sequences", "inputs", "schedules"],
     "every history of operations, policy refusals and throwing constructors over any hash function, and concurrent lookups in every interleaving",
     "The hash map test is one short scripted sequence with a good hash function and an allocator that never fails.",
     [HT, HM, HS], [("open addressing with tombstones", HT + ": lookup, lookupForAdd, add, removeEntry"),
                    ("resizing", HT + ": checkDensity, changeCapacity")])

prop("C11", "Hash containers leak nothing and use only their own allocation policy",
     "Every key and value object a hash container constructs is destroyed exactly once (when removed, cleared, or with the "
     "container) and never used afterwards, and every block it obtains from its allocation policy is given back exactly "
     "once to that policy, also when allocations or constructions of elements fail at any point. Keys and values moved in, or moved to a larger table, are not copied. estimateMemoryUse() tells the bytes it holds (never less "
     "than right after init, nor out of proportion to the most elements the container ever held), allocPolicy() is the policy in use, and a request beyond the size limit is reported to the policy "
     "as an overflow and refused, without an allocation.",
     ["histories", "fault_sequences"],
     "every history of operations with any subset of allocations refused and element constructions failing",
     "The tests count neither element lifetimes nor blocks and never see an allocation fail.",
     [HT, HM, HS, "amtl/am-allocator-policies.h"],
     [("entry life cycle", HT + ": HashTableEntry::construct/destruct/setRemoved/setFree"),
      ("table life cycle", HT + ": createTable, changeCapacity, ~HashTable, move constructor")])

prop("C12", "FixedArray holds exactly its elements, or reports that it could not",
     "After construction from a size, a vector or another array, and after copy and move assignment (also to itself), a "
     "FixedArray either holds exactly the given elements, or its initialize() returns false because its policy refused the "
     "memory or the size overflowed; equality agrees with the contents. Elements of an array or vector moved in are not copied. If constructing an element throws, the exception gets out, and an array "
     "that was being assigned to can still be used. In all cases every "
     "element constructed is destroyed exactly once and each block goes back exactly once to the policy it came from.",
     ["histories", "fault_sequences", "inputs"],
     "every history of constructions, assignments and moves of arrays, with any subset of allocations refused and element constructions throwing",
     "No test covers FixedArray, nor an allocation policy that fails.",
     ["amtl/am-fixedarray.h", "amtl/am-allocator-policies.h"],
     [("allocation", "amtl/am-fixedarray.h: allocate, initialize"),
      ("element life cycle", "amtl/am-fixedarray.h: constructors, destruct, operator=")])

prop("C13", "SystemAllocatorPolicy: out of memory stops the process at once",
     "With the default allocation policy no operation of a container (or of the policy itself) goes on after the system "
     "refused memory or a size overflowed: the process aborts there, before any further element is made or destroyed, and "
     "am_malloc never returns null. It never aborts when memory was available, and freed memory goes back to the system.",
     ["fault_sequences", "schedules", "histories"],
     "every allocation of every history being the one that fails, in any thread",
     "Tests cannot make malloc fail at a chosen call, nor survive the abort to look at it.",
     ["amtl/am-allocator-policies.h", HT, "amtl/am-fixedarray.h"],
     [("abort", "amtl/am-allocator-policies.h: am_malloc, reportOutOfMemory, reportAllocationOverflow")])

SL = "amtl/os/am-shared-library.h"
prop("C14", "SharedLib keeps its library open exactly as long as it is referenced",
     "A library opened through SharedLib stays open until the last reference to the SharedLib goes away and is then closed "
     "exactly once; Open fails if the library cannot be loaded with all it refers to; a failed Open returns null, closes and leaks nothing, and puts the loader's message for this failure, "
     "cut to fit and terminated, into the error buffer and no byte beyond it. No copy of a SharedLib object, if one can be made at all, "
     "closes the library again. Lookups return what the loader has for that "
     "library and symbol, null if it has none.",
     ["fault_sequences", "histories", "schedules"],
     "every history of opens, lookups and releases by several threads with any loader call failing",
     "The one test opens a real library successfully; it cannot count loader handles nor make the loader fail.",
     [SL, RC], [("handle ownership", SL + ": SharedLib constructors, destructor"), ("errors", SL + ": SharedLib::Open")])

FS = "amtl/os/am-fsutil-posix.h"
prop("C15", "File queries tell the truth about some moment during the call",
     "PathExists, IsFile and IsDirectory return true only if the path (symbolic links followed) respectively existed, was a "
     "regular file, or was a directory at some moment during the call, and return false only if it was not so at some such "
     "moment or the system refused to say. CreateDirectory returns true if and only if this very call created the "
     "directory, so of several callers racing to create one directory at most one is told so, and it creates it with the "
     "requested permissions.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving with other threads creating, removing and renaming entries, with any file system call failing",
     "The file system tests query static files from one thread.",
     [FS, "amtl/os/am-fsutil.h"], [("queries", FS + ": PathExists, IsFile, IsDirectory"), ("creation", FS + ": CreateDirectory")])

ST = "amtl/am-string.h"
prop("C16", "Bounded formatting and copying never overruns and always terminates",
     "SafeSprintf, SafeVsprintf, path::Format/FormatVa, SafeStrcpy, SafeStrcpyN and SafeStrcat write nothing outside the "
     "maxlength bytes given, leave a terminated string if there is room for any, "
     "and return its length; the string is the longest prefix of the full result that fits (path::Format with backslashes turned "
     "into slashes). If the system cannot format, the formatting functions leave an empty string and return 0. Calls from several threads do "
     "not affect each other.",
     ["inputs", "fault_sequences", "schedules"],
     "every text, buffer size and formatting failure, in several threads at once",
     "Tests try a handful of sizes; a formatting failure, which leaves garbage in the buffer, is never provoked.",
     [ST, "amtl/os/am-path.h"], [("bounded formatting", ST + ": SafeVsprintf"), ("path formatting", "amtl/os/am-path.h: FormatVa")])

prop("C17", "Allocating formatting returns the whole text or nothing, and leaks nothing",
     "Sprintf, SprintfArgs, StringPrintf and StringPrintfVa return exactly the formatted text, of any length. If the system "
     "cannot format, at whichever attempt, the first two return null and the others an empty string; if memory runs out, an exception says so; "
     "nothing is leaked in any case, and calls from several threads do not affect each other.",
     ["inputs", "fault_sequences", "schedules"],
     "every text length, every failing formatting or allocation call, several threads at once",
     "Tests format a few short strings; failures of vsnprintf or of allocation never happen in them.",
     [ST], [("measure, allocate, format", ST + ": detail::SprintfArgsImpl")])

prop("C18", "Scope guards act exactly once on every way out of the scope",
     "However a scope is left (normally, early, or by an exception raised at any point), a ScopeGuard runs its callback "
     "exactly once unless it was cancelled or moved from, SaveAndSet restores the value it saw, StackLinked pops exactly "
     "its own node, so that nested uses unwind in order and leave the variables and lists of every task as they were. ReturnAndVoid "
     "returns the old value and leaves a default one.",
     ["crash_points", "programs", "schedules"],
     "every cancellation point of every nesting of guards, in interleaved tasks",
     "Tests leave scopes normally; cancellation at every point of a nested program is out of their reach.",
     ["amtl/am-raii.h"], [("guards", "amtl/am-raii.h: ScopeGuard, SaveAndSet, StackLinked, ReturnAndVoid")])

SE = "amtl/os/am-system-errors.h"
prop("C19", "System error texts: right message, own buffer, in any thread",
     "FormatSystemErrorCode puts the system's message for that code, cut to fit and terminated, into the buffer given, "
     "and FormatSystemError does so for the calling thread's latest error. They write nothing outside the maxlength bytes, and "
     "calls in other threads, at the same time and about other errors, change nothing about it.",
     ["schedules", "inputs"],
     "every code and buffer size, with several threads formatting errors at once",
     "No test covers it; the thread-unsafe variant of the system call gives the same answers to a single thread.",
     [SE], [("reentrant message lookup", SE + ": FormatSystemErrorCode")])

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

TECH = "deterministic simulation with fault injection: seeded schedule and fault search over the real code"
NOTE = ("Seeded search, not exhaustive. Sequentially consistent values plus happens-before race detection; "
        "the real AMTL headers run against simulated threads, heap and system calls.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                   thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                   technique=TECH, level="exploration", level_note=CHECKS[p["id"]].get("note", NOTE))
              for p in P if p["id"] in CHECKS]
    listed = {n["property"] for n in NA}
    na = NA + [dict(property=p["id"], reason="check not built yet") for p in P
               if p["id"] not in CHECKS and p["id"] not in listed]
    doc = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is made outside it (compiler instrumentation, symbol redirection, "
                     "policies and template parameters).")
    json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
