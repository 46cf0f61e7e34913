// Deterministic simulator runtime: the interface used by the scenarios.
//
// The scenarios (and, through them, every AMTL header they include) are compiled with
// -fsanitize=thread but linked against sim/rt.cpp instead of libtsan, and every libc/pthread call
// that matters is interposed. So every memory access, atomic operation and system call the real
// code makes becomes a point at which the seeded scheduler decides who runs next and whether a
// fault is injected.
#pragma once
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

struct Op {
    int t = 0, code = 0;
    int64_t a = 0, b = 0, c = 0;
};

// What one run does. |params| are configuration knobs (any value must be legal, including 0: the
// minimiser drives them there), |ops| the per-thread operations. Any subset of |ops| must be
// executable, for the same reason. params[0] is always the behaviour of the simulated heap.
struct Program {
    std::vector<int64_t> params;
    std::vector<Op> ops;
    int64_t p(size_t i) const { return i < params.size() ? params[i] : 0; }
};

enum Site {
    F_MALLOC,       // malloc() returns NULL
    F_POLICY,       // an AllocPolicy's am_malloc returns NULL
    F_BUDGET,       // allocation refused: shared memory budget exhausted
    F_KEYCREATE,    // pthread_key_create fails
    F_SETSPECIFIC,  // pthread_setspecific fails
    F_THREADCREATE, // pthread_create fails
    F_SETNAME,      // pthread_setname_np fails
    F_TRYLOCK,      // a try-lock fails although the lock is free
    F_CASWEAK,      // weak compare-exchange fails spuriously
    F_CONDSPUR,     // spurious condition variable wakeup
    F_CRASH,        // a thread dies between operations
    F_STALL,        // a thread is not scheduled for a while
    F_STAT,         // a file query fails
    F_MKDIR,        // mkdir() fails
    F_DLOPEN,       // dlopen fails
    F_DLSYM,        // dlsym fails
    F_DLCLOSE,      // dlclose fails
    F_VSNPRINTF,    // vsnprintf fails
    F_CANCEL,       // a task is cancelled at an arbitrary point
    F_SYSCALL,      // some other call of the workload fails
    F_NEW,          // operator new fails
    F_CLOCK,        // the time of day is changed, to anything
    F_NSITES
};
extern const char* const kSiteName[F_NSITES];

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);

// While a Quiet is alive on a thread, that thread's accesses are invisible to the scheduler, and
// its allocations come from the real heap instead of the simulated one. For oracles and models.
struct Quiet {
    Quiet();
    ~Quiet();
};
// Undoes Quiet for a scope (library code called from a model).
struct Loud {
    Loud();
    ~Loud();
    int saved;
};

int self();
int nthreads();                            // created so far, dead ones included
int spawn(void (*fn)(void*), void* arg);
void join(int tid);
bool finished(int tid);                    // ran to its end
bool crashed(int tid);                     // died to F_CRASH
void point();                              // explicit scheduling point
void crash_point();                        // scheduling point at which F_CRASH may end this thread
[[noreturn]] void finish_run();            // end the run now, as a success
uint64_t seq();                            // next global event number
uint64_t steps();
void set_max_steps(uint64_t n);
void set_no_preempt(bool on);              // only switch at blocking points (sequential set-up)

void enable_fault(Site s);                 // the scenario uses this site (call before work)
bool fault(Site s);                        // ask the fault engine; counts the query, and the hit
int64_t fault_val(Site s, int64_t n);      // value (< n) attached to the last hit of |s|
void disable_faults();                     // "faults stop"
uint32_t hits(Site s);
uint32_t thread_hits(Site s);
uint64_t malloc_refusals();                // mallocs of this thread that failed, injected or for lack of room

// Simulated heap.
bool in_arena(const void* p);
bool is_live(const void* p);               // inside a block that is allocated now
bool live_range(const void* p, size_t n);
size_t live_blocks();
size_t live_bytes();
void* arena_alloc(size_t n);               // nullptr when it does not fit
void arena_free(void* p);
size_t block_size(const void* p);          // size of the live block |p| starts, or (size_t)-1
std::string describe_live();
void race_exempt(const void* p, size_t n);

// Process aborts. If |h| returns, the run ends as a success.
void on_abort(void (*h)(const char* why));
// Assertion failures while armed on this thread: longjmp(env, 1). Survives one hit, then disarms.
void assert_arm(jmp_buf* env);
void assert_disarm();
void abort_arm(jmp_buf* env);
void abort_disarm();

// pthread key table of the simulated OS.
int keys_live();
uint64_t key_refusals();                   // failed slot creations and stores so far
uint64_t key_creations();                  // successful slot creations so far
void keys_limit(int n);
bool key_is_live(unsigned key);
void keys_policy(int p);                   // 0: lowest free slot, 1: next free slot, 2: highest

// Threads as the simulated OS knows them.
const char* thread_name(int tid);          // current name, "" if never named
int thread_by_handle(unsigned long h);
bool thread_released(int tid);             // joined or detached
uint32_t setname_calls(int tid);

// Called, in the same step, whenever the code under test has created a directory.
void on_fs_change(void (*h)(const char* path));

// Loader stub.
int lib_handles_open();                    // sum of (opens - closes)
int lib_open_count(int lib);               // opens - closes of that library
uint64_t lib_opens();
void* lib_raw_open(int lib);               // a dlopen by the application itself
const char* lib_name(int lib);
void* lib_symbol(int lib, int sym);
const char* last_dlerror();                // text of the calling thread's latest failure
int lib_of_handle(void* h);

struct Scenario {
    const char* name;
    void (*gen)(Rng&, Program&);
    void (*run)(const Program&);
};
struct Register {
    Register(const Scenario* s);
};
#define SIM_SCENARIO(id, nm, genfn, runfn)                          \
    static const ::sim::Scenario scen_##id = {nm, genfn, runfn};    \
    static ::sim::Register reg_##id(&scen_##id)

// Linearizability of a single register (initial value |init|).
struct RegOp {
    int64_t inv, ret;   // event numbers; ret < 0: never returned
    bool write;
    int64_t val;
};
bool register_linearizable(const std::vector<RegOp>& h, int64_t init, bool* gave_up);

// Leaves rubbish on the stack below.
void dirty_stack();

// Runs |body(t, op)| for every operation of thread |t| in order on |n| simulated threads (or on
// the calling one, thread 0, when |n| is 1 ... the caller's choice) and waits for them.
void run_threads(const Program& p, int n, void (*body)(int t, const Op& op), void (*begin)(int t) = nullptr,
                 void (*end)(int t) = nullptr);

} // namespace sim

#define SIM_EXPECT(cond, cls, ...)                       \
    do {                                                 \
        if (!(cond))                                     \
            sim::violation(cls, __VA_ARGS__);            \
    } while (0)
