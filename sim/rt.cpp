// Deterministic simulator runtime. See rt.h and DESIGN.md.
#ifndef _GNU_SOURCE
#    define _GNU_SOURCE
#endif
#include "rt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/prctl.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

// This file becomes a shared library of its own, so that none of its template instantiations mix
// with the instrumented ones of the scenarios; in the scenario objects (only), calls such as
// malloc are redirected to __wrap_malloc (see build.py), so plain names here are the real ones.
#define __real_malloc malloc
#define __real_free free
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_abort abort
#define __real_dlsym dlsym
#define __real_vsnprintf vsnprintf
#define __real_memcpy memcpy
#define __real_memmove memmove
#define __real_memset memset
#define __real_strlen strlen
#define __real_stat stat
#define __real_lstat lstat
#define __real_fstatat fstatat
#define __real_access access
#define __real_mkdir mkdir
#define __real_open open
#define __real_strerror_r strerror_r

namespace sim {

const char* const kSiteName[F_NSITES] = {
    "malloc",  "policy_malloc", "budget_exhausted", "key_create", "setspecific", "thread_create",
    "setname", "trylock",       "cas_weak",         "cond_spurious", "thread_crash", "thread_stall",
    "stat",    "mkdir",         "dlopen",           "dlsym",      "dlclose",     "vsnprintf",
    "cancel",  "syscall",       "operator_new", "clock_jump"};

// ------------------------------------------------------------------------------------------
// State

static const int MAXT = 24;
static const uintptr_t ARENA_BASE = 0x100000000000ull;
static const size_t ARENA_SIZE = 16u << 20;
static const uintptr_t STACK_BASE = 0x110000000000ull;
static const size_t STACK_SIZE = 256 << 10;
static const size_t STACK_STRIDE = 1 << 20;
static const uintptr_t STATE_BASE = 0x120000000000ull;
static const int MAX_SW = 60000;
static const int MAX_FAULTS = 6000;
static const int MAX_OPS = 400;
static const int MAX_PARAMS = 32;
static const int MAX_PROBES = 48;
static const int MAXKEYS = 1024;
static const int TLSKEYS = 128;

struct VC {
    uint32_t c[MAXT];
};
static inline void vc_join(VC& a, const VC& b) {
    for (int i = 0; i < MAXT; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

enum ThState { T_RUN, T_BLOCK, T_SLEEP, T_DONE, T_CRASHED };
enum Kind { K_PLAIN = 1, K_ATOMIC, K_CALL, K_YIELD, K_BLOCK };

struct Tcb {
    int id;
    int state;
    int futex;
    int quiet;
    int saved_errno;
    const void* wait_on;
    uint64_t wake_at;
    uint64_t stalled_until;
    int prio;
    VC vc, rel_fence, acq_pending;
    bool has_rel_fence;
    void* (*start)(void*);
    void* arg;
    void* retval;
    unsigned long handle;
    bool joined, detached, waited, sim_spawned;
    char name[32];
    uint32_t setname_calls;
    void* tls[TLSKEYS];
    uint32_t hits[F_NSITES];
    uint64_t refusals;
    jmp_buf* assert_env;
    jmp_buf* abort_env;
    char dlerr[8192];
    bool dlerr_set;
    char dlerr_last[8192];
    int64_t fval[F_NSITES];
};

struct SwEnt {
    uint32_t step;
    uint32_t tid;
};
struct FaultEnt {
    int site;
    uint32_t idx;
    int64_t val;
};
struct ProbeEnt {
    char name[40];
    uint32_t n;
};
struct SharedRes {
    int status; // 0: nothing yet, 1: ok, 2: violation
    char cls[40];
    char msg[1400];
    uint64_t hash, steps, sim_ns;
    uint32_t preempts, switches, nthreads, live_at_end;
    uint32_t nsw, nfaults, nops, nparams;
    uint32_t overflow;
    uint64_t q[F_NSITES], h[F_NSITES];
    uint32_t nprobes;
    ProbeEnt probes[MAX_PROBES];
    int64_t params[MAX_PARAMS];
    Op ops[MAX_OPS];
    FaultEnt faults[MAX_FAULTS];
    SwEnt sw[MAX_SW];
};

struct SyncVar {
    uintptr_t addr;
    VC vc;
    int owner; // head of the current release sequence
};
struct SimMutex {
    uintptr_t addr;
    int owner;
    int count;
    int kind;
    int readers;
    VC vc;
};
struct Blk {
    uint32_t size;
    uint32_t state; // 0 none, 1 live, 2 freed
    uint32_t next;
};

static const int NSYNC = 4096;
static const int NMUTEX = 256;

struct State {
    Tcb t[MAXT];
    int nt;
    int cur;
    uint64_t step, max_steps;
    uint64_t seqno;
    uint64_t hash;
    uint64_t now_ns;
    int64_t clock_off, clock_off_ns;  // of the time of day
    bool no_preempt;
    bool faults_off;
    bool ending;
    uint64_t consec;
    // strategy
    bool replay;
    Rng srng, frng, grng;
    int strat;
    double p_plain, p_atomic, p_call;
    uint64_t quantum;
    uint64_t change[8];
    int nchange;
    int lowprio;
    bool stalls;
    double p_stall;
    // faults
    bool on[F_NSITES];
    bool enabled[F_NSITES];
    double rate[F_NSITES];
    int64_t budget[F_NSITES];
    // replay tapes
    const SwEnt* rsw;
    uint32_t nrsw, irsw;
    const FaultEnt* rf;
    uint32_t nrf;
    uint32_t occ[F_NSITES];
    // os
    bool key_used[MAXKEYS];
    uint32_t key_gen[MAXKEYS];
    int key_limit, key_next, key_policy, keys_live;
    uint64_t key_fails, key_makes;
    void (*key_dtor[TLSKEYS])(void*);
    bool handle_used[MAXT];
    void (*fs_change)(const char* path);
    void (*abort_h)(const char*);
    // sync
    SyncVar sync[NSYNC];
    int nsync;
    uint16_t synchash[NSYNC * 2];
    SimMutex mtx[NMUTEX];
    int nmtx;
    // arena
    size_t bump;
    int heap_mode;
    uint64_t nlive, nlive_bytes, nallocs;
    uint32_t freelist[1024];
    uint32_t fifo_tail[1024];
    int opens[64], closes[64];
    uint64_t nopens;
    char strerror_buf[128];
    struct {
        uintptr_t a;
        size_t n;
    } exempt[16];
    int nexempt;
};

static State* G;          // at STATE_BASE
static SharedRes* R;      // shared with the parent
static uint8_t* shadow;   // one byte per arena byte
static uint64_t* cells;   // 4 slots per 8-byte granule of the arena
static uint64_t* gcells;  // same, for globals
static Blk* blks;         // one per 16 arena bytes
static bool g_verbose;
static bool g_in_child;
static uintptr_t g_glo, g_ghi; // the writable globals of the scenario executable
static uintptr_t g_qlo, g_qhi; // ... except these, which belong to the oracles
static __thread Tcb* me;

static inline bool active() {
    return me && !me->quiet;
}

// ------------------------------------------------------------------------------------------
// Results

[[noreturn]] static void end_child(int status) {
    R->hash = G->hash;
    R->steps = G->step;
    R->sim_ns = G->now_ns;
    R->nthreads = G->nt;
    R->live_at_end = G->nlive;
    R->status = status;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

static void vlog(const char* fmt, va_list ap) {
    char buf[1024];
    int n = __real_vsnprintf(buf, sizeof(buf) - 2, fmt, ap);
    if (n < 0)
        n = 0;
    if (n > (int)sizeof(buf) - 2)
        n = sizeof(buf) - 2;
    buf[n++] = '\n';
    ssize_t r = write(1, buf, n);
    (void)r;
}
static void slog(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}

void violation(const char* cls, const char* fmt, ...) {
    if (me)
        me->quiet++;
    if (R->status == 0) {
        char buf[1200];
        va_list ap;
        va_start(ap, fmt);
        __real_vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        snprintf(R->cls, sizeof(R->cls), "%s", cls);
        snprintf(R->msg, sizeof(R->msg), "%s [thread %d, step %llu]", buf, me ? me->id : -1,
                 (unsigned long long)G->step);
        for (char* c = R->msg; *c; c++)
            if (*c == '\n' || (unsigned char)*c < 32)
                *c = ' ';
        // the class is part of what must reproduce
        for (const char* c = cls; *c; c++)
            G->hash = (G->hash ^ (unsigned char)*c) * 0x100000001b3ull;
        if (g_verbose)
            slog("VIOLATION %s: %s", cls, R->msg);
    }
    end_child(2);
}

void finish_run() {
    end_child(1);
}

void note(const char* fmt, ...) {
    if (!g_verbose)
        return;
    int e = errno;
    char buf[900];
    va_list ap;
    va_start(ap, fmt);
    __real_vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    slog("  [%6llu] T%d: %s", (unsigned long long)G->step, me ? me->id : -1, buf);
    errno = e;
}

void probe(const char* name) {
    for (uint32_t i = 0; i < R->nprobes; i++) {
        if (!strcmp(R->probes[i].name, name)) {
            R->probes[i].n++;
            return;
        }
    }
    if (R->nprobes < MAX_PROBES) {
        snprintf(R->probes[R->nprobes].name, sizeof(R->probes[0].name), "%s", name);
        R->probes[R->nprobes++].n = 1;
    }
}

Quiet::Quiet() {
    if (me)
        me->quiet++;
}
Quiet::~Quiet() {
    if (me)
        me->quiet--;
}
Loud::Loud() : saved(0) {
    if (me) {
        saved = me->quiet;
        me->quiet = 0;
    }
}
Loud::~Loud() {
    if (me)
        me->quiet = saved;
}

// ------------------------------------------------------------------------------------------
// Scheduler

static inline void fold(uint64_t v) {
    G->hash = (G->hash ^ v) * 0x100000001b3ull;
    G->hash ^= G->hash >> 29;
}

static void fut_wait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fut_post(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void switch_to(int n) {
    Tcb* self = me;
    int e = errno;
    G->cur = n;
    fut_post(&G->t[n].futex);
    fut_wait(&self->futex);
    errno = e;
}

static inline bool runnable(const Tcb& t) {
    return t.state == T_RUN;
}

static void wake_sleepers() {
    for (int i = 0; i < G->nt; i++)
        if (G->t[i].state == T_SLEEP && G->t[i].wake_at <= G->now_ns)
            G->t[i].state = T_RUN;
}

static int next_cyclic(int from) {
    for (int k = 1; k <= G->nt; k++) {
        int i = (from + k) % G->nt;
        if (runnable(G->t[i]))
            return i;
    }
    return -1;
}

static const uint64_t kGuard = 3000;

// What happens when nobody decides otherwise; the tape only records deviations from it.
static int default_choice(int kind) {
    int c = me->id;
    if (kind == K_BLOCK)
        return next_cyclic(c);
    if (kind == K_YIELD || G->consec >= kGuard)
        return next_cyclic(c);
    return c;
}

static int random_runnable(bool other, bool skip_stalled) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < G->nt; i++) {
        if (!runnable(G->t[i]))
            continue;
        if (other && i == me->id)
            continue;
        if (skip_stalled && G->t[i].stalled_until > G->step)
            continue;
        cand[n++] = i;
    }
    if (!n)
        return -1;
    return cand[G->srng.below(n)];
}

static int decide(int kind) {
    int def = default_choice(kind);
    if (def < 0)
        return -1;
    if (G->replay) {
        while (G->irsw < G->nrsw && G->rsw[G->irsw].step < G->step)
            G->irsw++;
        if (G->irsw < G->nrsw && G->rsw[G->irsw].step == G->step) {
            int t = G->rsw[G->irsw].tid;
            if (t < G->nt && runnable(G->t[t]))
                return t;
        }
        return def;
    }
    bool must = kind == K_BLOCK;
    bool fair = G->step > G->max_steps / 2 || G->ending;
    if (G->consec >= kGuard && !must) {
        int r = random_runnable(true, false);
        return r < 0 ? def : r;
    }
    if (fair) {
        if (must || kind == K_YIELD || G->srng.chance(0.1)) {
            int r = random_runnable(kind == K_YIELD, false);
            return r < 0 ? def : r;
        }
        return def;
    }
    if (G->no_preempt && !must && kind != K_YIELD)
        return def;
    bool st = G->stalls;
    if (st && G->srng.chance(G->p_stall)) {
        Tcb& v = G->t[G->srng.below(G->nt)];
        if (v.stalled_until <= G->step && runnable(v)) {
            v.stalled_until = G->step + 20 + G->srng.below(G->srng.chance(0.3) ? 6000 : 600);
            R->h[F_STALL]++;
        }
    }
    bool self_stalled = st && me->stalled_until > G->step;
    switch (G->strat) {
        case 2: { // PCT
            for (int i = 0; i < G->nchange; i++)
                if (G->change[i] == G->step)
                    me->prio = --G->lowprio;
            if (kind == K_YIELD)
                me->prio = --G->lowprio;
            int best = -1;
            for (int i = 0; i < G->nt; i++) {
                if (!runnable(G->t[i]) || (must && i == me->id))
                    continue;
                if (st && G->t[i].stalled_until > G->step)
                    continue;
                if (best < 0 || G->t[i].prio > G->t[best].prio)
                    best = i;
            }
            return best < 0 ? def : best;
        }
        case 3: { // quantum round robin
            if (must || kind == K_YIELD || self_stalled || G->consec >= G->quantum) {
                int r = next_cyclic(me->id);
                if (r >= 0 && (!st || G->t[r].stalled_until <= G->step))
                    return r;
                r = random_runnable(must, st);
                return r < 0 ? def : r;
            }
            return def;
        }
        case 4: { // a few preemptions, otherwise run to block
            bool hit = false;
            for (int i = 0; i < G->nchange; i++)
                if (G->change[i] == G->step)
                    hit = true;
            if (must || kind == K_YIELD || hit || self_stalled) {
                int r = random_runnable(true, st);
                return r < 0 ? def : r;
            }
            return def;
        }
        default: {
            double p = kind == K_PLAIN ? G->p_plain : kind == K_ATOMIC ? G->p_atomic : G->p_call;
            if (must || kind == K_YIELD || self_stalled || G->srng.chance(p)) {
                int r = random_runnable(must || kind == K_YIELD || self_stalled, st);
                return r < 0 ? def : r;
            }
            return def;
        }
    }
}

static void record_sw(int choice, int kind) {
    if (choice == default_choice(kind))
        return;
    if (R->nsw < (uint32_t)MAX_SW) {
        R->sw[R->nsw].step = (uint32_t)G->step;
        R->sw[R->nsw].tid = (uint32_t)choice;
        R->nsw++;
    } else {
        R->overflow = 1;
    }
}

static inline void step_common(int kind) {
    G->step++;
    G->now_ns += 100;
    if (G->step > G->max_steps)
        violation("progress", "no end of the workload within %llu simulated steps",
                  (unsigned long long)G->max_steps);
    fold((uint64_t)me->id * 8 + kind);
    G->consec++;
}

static void sched_point(int kind) {
    step_common(kind);
    if (G->nt == 1)
        return;
    if ((G->step & 15) == 0)
        wake_sleepers();
    int n = decide(kind);
    if (n < 0)
        n = me->id;
    record_sw(n, kind);
    if (n == me->id) {
        if (G->consec >= kGuard)
            G->consec = 0;
        return;
    }
    G->consec = 0;
    R->switches++;
    if (kind != K_YIELD)
        R->preempts++;
    if (g_verbose)
        slog("  [%6llu] T%d -> T%d", (unsigned long long)G->step, me->id, n);
    switch_to(n);
}

// The current thread is not runnable any more: pick somebody else.
static void block_here(bool forever) {
    for (;;) {
        step_common(K_BLOCK);
        wake_sleepers();
        int n = decide(K_BLOCK);
        if (n < 0) {
            uint64_t best = 0;
            bool any = false;
            for (int i = 0; i < G->nt; i++)
                if (G->t[i].state == T_SLEEP && (!any || G->t[i].wake_at < best)) {
                    best = G->t[i].wake_at;
                    any = true;
                }
            if (any) {
                if (best > G->now_ns)
                    G->now_ns = best;
                continue;
            }
            // Everybody is blocked.
            std::string who;
            me->quiet++;
            for (int i = 0; i < G->nt; i++)
                if (G->t[i].state == T_BLOCK)
                    who += " T" + std::to_string(i);
            violation("deadlock", "every remaining thread is blocked:%s", who.c_str());
        }
        record_sw(n, K_BLOCK);
        G->consec = 0;
        if (n == me->id)
            return;
        R->switches++;
        if (g_verbose)
            slog("  [%6llu] T%d blocks -> T%d", (unsigned long long)G->step, me->id, n);
        if (forever) {
            G->cur = n;
            fut_post(&G->t[n].futex);
            for (;;) {
                int z = 0;
                syscall(SYS_futex, &z, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
            }
        }
        switch_to(n);
        if (me->state == T_RUN)
            return;
    }
}

static void block_on(const void* obj) {
    me->state = T_BLOCK;
    me->wait_on = obj;
    block_here(false);
    me->wait_on = nullptr;
}

static void wake_all(const void* obj) {
    for (int i = 0; i < G->nt; i++)
        if (G->t[i].state == T_BLOCK && G->t[i].wait_on == obj)
            G->t[i].state = T_RUN;
}
static void wake_one(const void* obj) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < G->nt; i++)
        if (G->t[i].state == T_BLOCK && G->t[i].wait_on == obj)
            cand[n++] = i;
    if (n)
        G->t[cand[0]].state = T_RUN;
}

int self() {
    return me ? me->id : -1;
}
int nthreads() {
    return G->nt;
}
uint64_t seq() {
    return ++G->seqno;
}
uint64_t steps() {
    return G->step;
}
void set_max_steps(uint64_t n) {
    G->max_steps = n;
}
void set_no_preempt(bool on) {
    G->no_preempt = on;
}
void point() {
    if (active())
        sched_point(K_CALL);
}
bool finished(int tid) {
    return G->t[tid].state == T_DONE;
}
bool crashed(int tid) {
    return G->t[tid].state == T_CRASHED;
}

// ------------------------------------------------------------------------------------------
// Faults

void enable_fault(Site s) {
    if (G->enabled[s])
        return;
    G->enabled[s] = true;
    static const double rates[] = {0.01, 0.03, 0.1, 0.25, 0.6};
    bool on = G->frng.chance(s == F_CRASH ? 0.25 : 0.6);
    double r = rates[G->frng.below(5)];
    int64_t b = G->frng.chance(0.4) ? 1 + (int64_t)G->frng.below(3) : 1 << 30;
    if (!G->replay) {
        G->on[s] = on;
        G->rate[s] = r;
        G->budget[s] = b;
    }
}

bool fault(Site s) {
    if (!me || me->quiet || G->faults_off || !G->enabled[s])
        return false;
    uint32_t idx = G->occ[s]++;
    R->q[s]++;
    bool hit = false;
    int64_t val = 0;
    if (G->replay) {
        for (uint32_t i = 0; i < G->nrf; i++)
            if (G->rf[i].site == (int)s && G->rf[i].idx == idx) {
                hit = true;
                val = G->rf[i].val;
                break;
            }
    } else if (G->on[s] && G->budget[s] > 0 && G->frng.chance(G->rate[s])) {
        hit = true;
        val = (int64_t)(G->frng.next() & 0x3fffffff);
        G->budget[s]--;
    }
    if (!hit)
        return false;
    if (R->nfaults < (uint32_t)MAX_FAULTS) {
        R->faults[R->nfaults].site = s;
        R->faults[R->nfaults].idx = idx;
        R->faults[R->nfaults].val = val;
        R->nfaults++;
    } else {
        R->overflow = 1;
    }
    R->h[s]++;
    me->hits[s]++;
    me->fval[s] = val;
    fold(0xfa017000ull + s * 64 + (val & 63));
    if (g_verbose)
        slog("  [%6llu] T%d: FAULT %s #%u value %lld", (unsigned long long)G->step, me->id,
             kSiteName[s], idx, (long long)val);
    return true;
}
int64_t fault_val(Site s, int64_t n) {
    return n > 0 ? me->fval[s] % n : 0;
}
void disable_faults() {
    G->faults_off = true;
}
uint32_t hits(Site s) {
    return (uint32_t)R->h[s];
}
uint64_t malloc_refusals() {
    return me ? me->refusals + me->hits[F_MALLOC] : 0;
}
uint32_t thread_hits(Site s) {
    return me->hits[s];
}

// ------------------------------------------------------------------------------------------
// Happens-before

static SyncVar* sync_find(uintptr_t a, bool create) {
    uint32_t h = (uint32_t)((a >> 2) * 0x9E3779B1u) & (NSYNC * 2 - 1);
    for (;;) {
        uint16_t i = G->synchash[h];
        if (!i)
            break;
        if (G->sync[i - 1].addr == a)
            return &G->sync[i - 1];
        h = (h + 1) & (NSYNC * 2 - 1);
    }
    if (!create)
        return nullptr;
    if (G->nsync >= NSYNC - 2)
        violation("harness", "too many synchronisation variables");
    SyncVar& s = G->sync[G->nsync++];
    s.addr = a;
    s.owner = -1;
    G->synchash[h] = (uint16_t)G->nsync;
    return &s;
}
static void sync_reset(uintptr_t a, size_t n) {
    for (int i = 0; i < G->nsync; i++) {
        SyncVar& s = G->sync[i];
        if (s.addr - a < n) {
            memset(&s.vc, 0, sizeof(s.vc));
            s.owner = -1;
        }
    }
}

static inline bool is_acq(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static inline bool is_rel(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

static void hb_load(uintptr_t a, int mo) {
    SyncVar* s = sync_find(a, false);
    if (!s)
        return;
    if (is_acq(mo))
        vc_join(me->vc, s->vc);
    else
        vc_join(me->acq_pending, s->vc);
}
static void hb_store(uintptr_t a, int mo, bool rmw) {
    SyncVar* s = sync_find(a, is_rel(mo) || me->has_rel_fence);
    if (!s)
        return;
    if (is_rel(mo)) {
        if (rmw) {
            vc_join(s->vc, me->vc);
        } else {
            s->vc = me->vc;
            s->owner = me->id;
        }
        me->vc.c[me->id]++;
        return;
    }
    if (rmw) {
        if (me->has_rel_fence)
            vc_join(s->vc, me->rel_fence);
        return; // continues the release sequence
    }
    // A relaxed store ends another thread's release sequence (C++17 [intro.races]).
    if (s->owner != me->id)
        memset(&s->vc, 0, sizeof(s->vc));
    if (me->has_rel_fence)
        vc_join(s->vc, me->rel_fence);
    s->owner = me->id;
}
static void hb_fence(int mo) {
    if (is_acq(mo))
        vc_join(me->vc, me->acq_pending);
    if (is_rel(mo)) {
        me->rel_fence = me->vc;
        me->has_rel_fence = true;
        me->vc.c[me->id]++;
    }
}

// A slot: clock(32) tid(6) mask(8) write(1) atomic(1) used(1)
static inline uint64_t mk_slot(int tid, uint32_t clk, unsigned mask, bool w, bool at) {
    return ((uint64_t)clk << 32) | ((uint64_t)tid << 16) | ((uint64_t)mask << 8) | (w ? 4 : 0) | (at ? 2 : 0) | 1;
}

[[noreturn]] static void race_violation(uintptr_t a, bool w, bool at, uint64_t o, const char* what) {
    violation("race", "%s%s of %#lx by T%d is not ordered after %s%s by T%d", at ? "atomic " : "",
              what ? what : w ? "write" : "read", (unsigned long)a, me->id, (o & 2) ? "atomic " : "",
              (o & 4) ? "write" : "read", (int)((o >> 16) & 63));
}

static void cell_access(uint64_t* c, uintptr_t addr, unsigned mask, bool w, bool at, const char* what) {
    int tid = me->id;
    uint64_t mine = mk_slot(tid, me->vc.c[tid], mask, w, at);
    int put = -1, old = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t o = c[i];
        if (!(o & 1)) {
            if (put < 0)
                put = i;
            continue;
        }
        int ot = (o >> 16) & 63;
        unsigned om = (o >> 8) & 255;
        bool ow = o & 4, oat = o & 2;
        uint32_t oc = (uint32_t)(o >> 32);
        if (ot == tid) {
            if ((om & ~mask) == 0 && (w || !ow) && (!at || oat))
                put = i; // subsumed
            continue;
        }
        bool ordered = oc <= me->vc.c[ot];
        if (!ordered && (om & mask) && (w || ow) && !(at && oat))
            race_violation(addr, w, at, o, what);
        if (ordered && (om & ~mask) == 0 && (w || !ow) && (!at || oat))
            old = i;
    }
    if (put < 0)
        put = old;
    if (put < 0)
        put = (int)((G->step ^ tid) & 3);
    c[put] = mine;
}

static inline bool exempt(uintptr_t a) {
    for (int i = 0; i < G->nexempt; i++)
        if (a - G->exempt[i].a < G->exempt[i].n)
            return true;
    return false;
}
void race_exempt(const void* p, size_t n) {
    if (G->nexempt < 16) {
        G->exempt[G->nexempt].a = (uintptr_t)p;
        G->exempt[G->nexempt].n = n;
        G->nexempt++;
    }
}

static void race_range(uint64_t* base, uintptr_t off, uintptr_t addr, size_t n, bool w, bool at,
                       const char* what = nullptr) {
    if (G->nexempt && exempt(addr))
        return;
    while (n) {
        unsigned lo = off & 7;
        size_t k = 8 - lo;
        if (k > n)
            k = n;
        unsigned mask = ((k == 8) ? 255u : ((1u << k) - 1)) << lo;
        cell_access(base + (off >> 3) * 4, addr, mask, w, at, what);
        off += k;
        addr += k;
        n -= k;
    }
}

// ------------------------------------------------------------------------------------------
// Simulated heap

enum { SH_OK = 0, SH_VOID = 1, SH_RED = 2, SH_FREED = 3 };

static inline bool arena_addr(uintptr_t a) {
    return a - ARENA_BASE < ARENA_SIZE;
}

static const char* shadow_class(uint8_t s) {
    return s == SH_FREED ? "uaf" : "oob";
}

static std::string where(uintptr_t a) {
    uintptr_t off = a - ARENA_BASE;
    char buf[160];
    for (uintptr_t k = off >> 4, i = 0; i < 4096; i++, k--) {
        if (blks[k].state) {
            uintptr_t start = k << 4;
            snprintf(buf, sizeof(buf), "%ld bytes from the start of a %u-byte block (%s)", (long)(off - start),
                     blks[k].size, blks[k].state == 1 ? "live" : "freed");
            return buf;
        }
        if (!k)
            break;
    }
    return "no block";
}

static void check_range(uintptr_t a, size_t n, bool w, const char* what) {
    if (a + n > ARENA_BASE + ARENA_SIZE)
        violation("oob", "%s past the simulated heap", what);
    const uint8_t* s = shadow + (a - ARENA_BASE);
    for (size_t i = 0; i < n; i++)
        if (s[i]) {
            me->quiet++;
            violation(shadow_class(s[i]), "%s %s of %zu bytes: %s", what, w ? "write" : "read", n,
                      where(a + i).c_str());
        }
}

void* arena_alloc(size_t n) {
    size_t r = ((n ? n : 1) + 15) & ~size_t(15);
    if (n > ARENA_SIZE / 2)
        return nullptr;
    size_t cls = r >> 4;
    uintptr_t off = 0;
    bool fresh = false;
    if (G->heap_mode != 0 && cls < 1024 && G->freelist[cls]) {
        uint32_t b = G->freelist[cls];
        G->freelist[cls] = blks[b].next;
        if (!G->freelist[cls])
            G->fifo_tail[cls] = 0;
        off = (uintptr_t)b << 4;
    } else if (G->bump + r + 32 > ARENA_SIZE) {
        // Full: large blocks, which are otherwise never used again, are now.
        if (r < 4096 || G->bump < ARENA_SIZE / 2)
            return nullptr;
        for (uintptr_t i = 0; i < (G->bump >> 4) && !off; i++)
            if (blks[i].state == 2 && blks[i].size >= n && blks[i].size - n <= blks[i].size / 2 &&
                ((blks[i].size + 15) >> 4) >= 1024)
                off = i << 4;
        if (!off)
            return nullptr;
    } else {
        off = G->bump + 16;
        memset(shadow + G->bump, SH_RED, 16);
        G->bump += 16 + r;
        fresh = true;
    }
    Blk& b = blks[off >> 4];
    b.size = (uint32_t)n;
    b.state = 1;
    memset(shadow + off, SH_OK, n);
    memset(shadow + off + n, SH_RED, r - n);
    if (off + r < ARENA_SIZE && shadow[off + r] == SH_VOID)
        memset(shadow + off + r, SH_RED, 16);
    memset((char*)ARENA_BASE + off, 0xAB, n);
    if (!fresh)
        memset(cells + (off >> 3) * 4, 0, (r >> 3) * 32);
    sync_reset(ARENA_BASE + off, r);
    G->nlive++;
    G->nlive_bytes += n;
    G->nallocs++;
    return (void*)(ARENA_BASE + off);
}

void arena_free(void* p) {
    if (!p)
        return;
    uintptr_t a = (uintptr_t)p;
    if (!arena_addr(a))
        violation("bad-free", "free of something that is not a heap block");
    uintptr_t off = a - ARENA_BASE;
    Blk& b = blks[off >> 4];
    if ((off & 15) || b.state == 0) {
        me->quiet++;
        violation("bad-free", "free of an address that no allocation returned: %s", where(a).c_str());
    }
    if (b.state == 2)
        violation("double-free", "a %u-byte block is freed twice", b.size);
    if (me && !me->quiet)
        race_range(cells, off, a, b.size ? b.size : 1, true, false, "free");
    for (int i = 0; i < G->nmtx; i++)
        if (G->mtx[i].addr - a < b.size) {
            if (G->mtx[i].owner >= 0)
                violation("mutex-misuse", "a locked mutex is freed");
            G->mtx[i] = G->mtx[--G->nmtx];
            i--;
        }
    b.state = 2;
    G->nlive--;
    G->nlive_bytes -= b.size;
    size_t r = ((b.size ? b.size : 1) + 15) & ~size_t(15);
    memset(shadow + off, SH_FREED, r);
    memset(p, 0xDD, b.size);
    size_t cls = r >> 4;
    if (G->heap_mode != 0 && cls < 1024) {
        uint32_t idx = (uint32_t)(off >> 4);
        if (G->heap_mode == 1) { // LIFO
            b.next = G->freelist[cls];
            G->freelist[cls] = idx;
            if (!G->fifo_tail[cls])
                G->fifo_tail[cls] = idx;
        } else { // FIFO
            b.next = 0;
            if (G->freelist[cls])
                blks[G->fifo_tail[cls]].next = idx;
            else
                G->freelist[cls] = idx;
            G->fifo_tail[cls] = idx;
        }
    }
}

bool in_arena(const void* p) {
    return arena_addr((uintptr_t)p);
}
bool is_live(const void* p) {
    return in_arena(p) && shadow[(uintptr_t)p - ARENA_BASE] == SH_OK;
}
bool live_range(const void* p, size_t n) {
    if (!in_arena(p) || (uintptr_t)p + n > ARENA_BASE + ARENA_SIZE)
        return false;
    for (size_t i = 0; i < n; i++)
        if (shadow[(uintptr_t)p - ARENA_BASE + i])
            return false;
    return true;
}
size_t live_blocks() {
    return G->nlive;
}
size_t live_bytes() {
    return G->nlive_bytes;
}
size_t block_size(const void* p) {
    if (!in_arena(p))
        return (size_t)-1;
    uintptr_t off = (uintptr_t)p - ARENA_BASE;
    if ((off & 15) || blks[off >> 4].state != 1)
        return (size_t)-1;
    return blks[off >> 4].size;
}
std::string describe_live() {
    std::string s;
    int n = 0;
    for (uintptr_t o = 0; o < G->bump && n < 12; o += 16)
        if (blks[o >> 4].state == 1) {
            s += (n ? "," : "") + std::to_string(blks[o >> 4].size);
            n++;
        }
    return s;
}

// ------------------------------------------------------------------------------------------
// Access hooks

static inline bool global_addr(uintptr_t a) {
    return a - g_glo < g_ghi - g_glo && !(a - g_qlo < g_qhi - g_qlo);
}

static void on_access(uintptr_t a, size_t n, bool w, bool call = false) {
    if (!active())
        return;
    if (arena_addr(a)) {
        sched_point(call ? K_CALL : K_PLAIN);
        check_range(a, n, w, "out-of-lifetime or out-of-bounds");
        race_range(cells, a - ARENA_BASE, a, n, w, false);
        fold(((a - ARENA_BASE) << 1) | w);
    } else if (global_addr(a)) {
        sched_point(call ? K_CALL : K_PLAIN);
        race_range(gcells, a - g_glo, a, n, w, false);
        fold(w);
    } else if (a < 4096 || a + n < a) {
        violation("null-deref", "%s of %zu bytes at address %#lx", w ? "write" : "read", n, (unsigned long)a);
    } else if (a >= 0xABABABAB00000000ull || (a >> 48)) {
        violation("wild", "%s through a garbage pointer %#lx", w ? "write" : "read", (unsigned long)a);
    }
}

static void atomic_pre(uintptr_t a, size_t n) {
    sched_point(K_ATOMIC);
    if (arena_addr(a))
        check_range(a, n, true, "atomic");
    else if (a < 4096)
        violation("null-deref", "atomic access at address %#lx", (unsigned long)a);
}
static void atomic_post(uintptr_t a, size_t n, bool w) {
    if (arena_addr(a)) {
        race_range(cells, a - ARENA_BASE, a, n, w, true);
        fold(((a - ARENA_BASE) << 1) | w);
    } else if (global_addr(a)) {
        race_range(gcells, a - g_glo, a, n, w, true);
    }
}

} // namespace sim
using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                             \
    void __tsan_read##n(void* p) { on_access((uintptr_t)p, n, false); }   \
    void __tsan_write##n(void* p) { on_access((uintptr_t)p, n, true); }   \
    void __tsan_volatile_read##n(void* p) { on_access((uintptr_t)p, n, false); }   \
    void __tsan_volatile_write##n(void* p) { on_access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n)                                                                     \
    void __tsan_unaligned_read##n(void* p) { on_access((uintptr_t)p, n, false); }  \
    void __tsan_unaligned_write##n(void* p) { on_access((uintptr_t)p, n, true); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* p, size_t n) {
    if (n)
        on_access((uintptr_t)p, n, false);
}
void __tsan_write_range(void* p, size_t n) {
    if (n)
        on_access((uintptr_t)p, n, true);
}
void __tsan_vptr_update(void** p, void* v) {
    if (!active())
        return;
    if (arena_addr((uintptr_t)p) && live_range(p, 8) && *p == v)
        on_access((uintptr_t)p, 8, false);
    else
        on_access((uintptr_t)p, 8, true);
}
void __tsan_vptr_read(void** p) { on_access((uintptr_t)p, 8, false); }

#define ATOMIC(bits, T)                                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                    \
        if (!active())                                                                             \
            return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                           \
        atomic_pre((uintptr_t)a, sizeof(T));                                                       \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
        hb_load((uintptr_t)a, mo);                                                                 \
        atomic_post((uintptr_t)a, sizeof(T), false);                                               \
        return v;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                 \
        if (!active()) {                                                                           \
            __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                              \
            return;                                                                                \
        }                                                                                          \
        atomic_pre((uintptr_t)a, sizeof(T));                                                       \
        atomic_post((uintptr_t)a, sizeof(T), true);                                                \
        hb_store((uintptr_t)a, mo, false);                                                         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                 \
        if (!active())                                                                             \
            return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                    \
        atomic_pre((uintptr_t)a, sizeof(T));                                                       \
        hb_load((uintptr_t)a, mo);                                                                 \
        atomic_post((uintptr_t)a, sizeof(T), true);                                                \
        hb_store((uintptr_t)a, mo, true);                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    static int cas##bits(volatile T* a, T* e, T v, int mo, int fmo, bool weak) {                   \
        if (!active())                                                                             \
            return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_pre((uintptr_t)a, sizeof(T));                                                       \
        T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                              \
        if (cur != *e || (weak && fault(F_CASWEAK))) {                                             \
            hb_load((uintptr_t)a, fmo);                                                            \
            atomic_post((uintptr_t)a, sizeof(T), false);                                           \
            *e = cur;                                                                              \
            return 0;                                                                              \
        }                                                                                          \
        hb_load((uintptr_t)a, mo);                                                                 \
        atomic_post((uintptr_t)a, sizeof(T), true);                                                \
        hb_store((uintptr_t)a, mo, true);                                                          \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
        return 1;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
        return cas##bits(a, e, v, mo, fmo, false);                                                 \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {   \
        return cas##bits(a, e, v, mo, fmo, true);                                                  \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {       \
        cas##bits(a, &e, v, mo, fmo, false);                                                       \
        return e;                                                                                  \
    }
#define ATOMIC_OP(bits, T, name, expr)                                    \
    T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int mo) {    \
        bool act = active();                                              \
        if (act) {                                                        \
            atomic_pre((uintptr_t)a, sizeof(T));                          \
            hb_load((uintptr_t)a, mo);                                    \
            atomic_post((uintptr_t)a, sizeof(T), true);                   \
            hb_store((uintptr_t)a, mo, true);                             \
        }                                                                 \
        T old = *a;                                                       \
        *a = (T)(expr);                                                   \
        return old;                                                       \
    }
#define ATOMICS(bits, T)                    \
    ATOMIC(bits, T)                         \
    ATOMIC_OP(bits, T, add, old + v)        \
    ATOMIC_OP(bits, T, sub, old - v)        \
    ATOMIC_OP(bits, T, and, old & v)        \
    ATOMIC_OP(bits, T, or, old | v)         \
    ATOMIC_OP(bits, T, xor, old ^ v)        \
    ATOMIC_OP(bits, T, nand, ~(old & v))
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (active()) {
        sched_point(K_ATOMIC);
        hb_fence(mo);
    }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------------------------------------------
// libc: memory

extern "C" {
void* __wrap_malloc(size_t n) {
    if (!active())
        return __real_malloc(n);
    sched_point(K_CALL);
    if (fault(F_MALLOC)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = arena_alloc(n);
    if (!p) {
        me->refusals++;
        errno = ENOMEM;
    }
    return p;
}
void __wrap_free(void* p) {
    if (in_arena(p)) {
        if (!me)
            return;
        if (!me->quiet)
            sched_point(K_CALL);
        arena_free(p);
        return;
    }
    if (p && active()) {
        uintptr_t a = (uintptr_t)p;
        if (a < 65536 || (a >> 48) || global_addr(a) || a - STACK_BASE < STACK_STRIDE * MAXT)
            violation("bad-free", "free of an address that no allocation returned");
    }
    __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!active())
        return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = __wrap_malloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void* __wrap_realloc(void* p, size_t n) {
    if (p && !in_arena(p))
        return __real_realloc(p, n);
    if (!active())
        return p ? nullptr : __real_realloc(p, n);
    void* q = __wrap_malloc(n);
    if (q && p) {
        size_t o = block_size(p);
        if (o == (size_t)-1)
            violation("bad-free", "realloc of something that is not a live block");
        __real_memcpy(q, p, o < n ? o : n);
        __wrap_free(p);
    }
    return q;
}

static void check_mem(const void* p, size_t n, bool w) {
    if (n)
        on_access((uintptr_t)p, n, w, true);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (active()) {
        check_mem(s, n, false);
        check_mem(d, n, true);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (active()) {
        check_mem(s, n, false);
        check_mem(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (active())
        check_mem(d, n, true);
    return __real_memset(d, c, n);
}
size_t __wrap_strlen(const char* s) {
    if (!active())
        return __real_strlen(s);
    if ((uintptr_t)s < 4096)
        violation("null-deref", "strlen of %p", (const void*)s);
    if (in_arena(s)) {
        // walk under shadow control: an unterminated string must not run into the next block
        const char* p = s;
        sched_point(K_CALL);
        for (;; p++) {
            check_range((uintptr_t)p, 1, false, "string read");
            if (!*p)
                break;
        }
        size_t n = p - s;
        race_range(cells, (uintptr_t)s - ARENA_BASE, (uintptr_t)s, n + 1, false, false);
        return n;
    }
    return __real_strlen(s);
}
// The code under test reads characters of |s|, up to |n| or its terminator.
static void read_chars(const char* s, size_t n) {
    if ((uintptr_t)s < 4096)
        violation("null-deref", "string function on %p", (const void*)s);
    if (!in_arena(s))
        return;
    size_t i = 0;
    while (i < n) {
        check_range((uintptr_t)(s + i), 1, false, "string read");
        if (!s[i++])
            break;
    }
    if (i)
        race_range(cells, (uintptr_t)s - ARENA_BASE, (uintptr_t)s, i, false, false);
}
static size_t common(const char* a, const char* b, size_t n, bool fold) {
    for (size_t i = 0; i < n; i++) {
        // (one character at a time: what lies behind the first difference need not be there)
        if (in_arena(a + i))
            check_range((uintptr_t)(a + i), 1, false, "string read");
        if (in_arena(b + i))
            check_range((uintptr_t)(b + i), 1, false, "string read");
        if (!a[i] || (fold ? tolower((unsigned char)a[i]) != tolower((unsigned char)b[i]) : a[i] != b[i]))
            return i + 1;
    }
    return n;
}
static void compare_chars(const char* a, const char* b, size_t n, bool fold) {
    if (!active())
        return;
    if (in_arena(a) || in_arena(b))
        sched_point(K_CALL);
    if (!n)
        return;
    if ((uintptr_t)a < 4096 || (uintptr_t)b < 4096)
        violation("null-deref", "string comparison of %p and %p", (const void*)a, (const void*)b);
    size_t k = common(a, b, n, fold);
    read_chars(a, k);
    read_chars(b, k);
}
int __wrap_strcmp(const char* a, const char* b) {
    compare_chars(a, b, SIZE_MAX, false);
    return strcmp(a, b);
}
int __wrap_strncmp(const char* a, const char* b, size_t n) {
    compare_chars(a, b, n, false);
    return strncmp(a, b, n);
}
int __wrap_strcasecmp(const char* a, const char* b) {
    compare_chars(a, b, SIZE_MAX, true);
    return strcasecmp(a, b);
}
int __wrap_strncasecmp(const char* a, const char* b, size_t n) {
    compare_chars(a, b, n, true);
    return strncasecmp(a, b, n);
}
const char* __wrap_strchr(const char* s, int c) {
    if (active()) {
        if (in_arena(s))
            sched_point(K_CALL);
        read_chars(s, SIZE_MAX);
    }
    return strchr(s, c);
}
const char* __wrap_strrchr(const char* s, int c) {
    if (active()) {
        if (in_arena(s))
            sched_point(K_CALL);
        read_chars(s, SIZE_MAX);
    }
    return strrchr(s, c);
}
const char* __wrap_strstr(const char* s, const char* t) {
    if (active()) {
        if (in_arena(s) || in_arena(t))
            if (in_arena(s))
            sched_point(K_CALL);
        read_chars(t, SIZE_MAX);
        // Piece by piece, so that finding many matches in a long string does not take forever.
        size_t m = __real_strlen(t), at = 0;
        for (;;) {
            read_chars(s + at, 4096);
            size_t n = strnlen(s + at, 4096), from = at > m ? at - m : 0;
            const char* r = (const char*)memmem(s + from, at + n - from, t, m);
            if (r)
                return r;
            if (n < 4096)
                return nullptr;
            at += n;
        }
    }
    return strstr(s, t);
}
size_t __wrap_strnlen(const char* s, size_t n) {
    if (active()) {
        if (in_arena(s))
            sched_point(K_CALL);
        read_chars(s, n);
    }
    return strnlen(s, n);
}
long __wrap_strtol(const char* s, char** e, int base) {
    if (active()) {
        if (in_arena(s))
            sched_point(K_CALL);
        read_chars(s, SIZE_MAX);
    }
    return strtol(s, e, base);
}
long __wrap_isoc23_strtol(const char* s, char** e, int base) {
    return __wrap_strtol(s, e, base);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (active()) {
        check_mem(a, n, false);
        check_mem(b, n, false);
    }
    return memcmp(a, b, n);
}
const void* __wrap_memchr(const void* s, int c, size_t n) {
    if (active() && n) {
        // Stops at the first match.
        const void* r = memchr(s, c, n);
        check_mem(s, r ? (const char*)r - (const char*)s + 1 : n, false);
        return r;
    }
    return memchr(s, c, n);
}
char* __wrap_strcpy(char* d, const char* s) {
    size_t n = __wrap_strlen(s);
    __wrap_memcpy(d, s, n + 1);
    return d;
}
char* __wrap_strncpy(char* d, const char* s, size_t n) {
    size_t i = 0;
    for (; i < n; i++) {
        if (active() && in_arena(s + i))
            check_range((uintptr_t)(s + i), 1, false, "string read");
        if (!s[i])
            break;
    }
    if (active())
        check_mem(d, n, true);
    __real_memcpy(d, s, i);
    __real_memset(d + i, 0, n - i);
    return d;
}
char* __wrap_strcat(char* d, const char* s) {
    __wrap_strcpy(d + __wrap_strlen(d), s);
    return d;
}

int __wrap_vsnprintf(char* buf, size_t n, const char* fmt, va_list ap) {
    if (!active())
        return __real_vsnprintf(buf, n, fmt, ap);
    sched_point(K_CALL);
    if (n && in_arena(buf))
        check_range((uintptr_t)buf, n, true, "vsnprintf buffer");
    else if (n && (uintptr_t)buf < 4096)
        violation("null-deref", "vsnprintf into %p", (void*)buf);
    if (in_arena(fmt))
        check_range((uintptr_t)fmt, 1, false, "format string");
    me->quiet++;
    bool flt = false;
    me->quiet--;
    flt = fault(F_VSNPRINTF);
    if (flt) {
        // Output up to the point of failure may have been produced, and need not be terminated.
        size_t k = n ? (size_t)fault_val(F_VSNPRINTF, (int64_t)(n > 65536 && !in_arena(buf) ? 65536 : n) + 1) : 0;
        if (n && in_arena(buf))
            race_range(cells, (uintptr_t)buf - ARENA_BASE, (uintptr_t)buf, n, true, false);
        __real_memset(buf, '#', k);
        errno = fault_val(F_VSNPRINTF, 2) ? ENOMEM : EILSEQ;
        return -1;
    }
    if (n && in_arena(buf))
        race_range(cells, (uintptr_t)buf - ARENA_BASE, (uintptr_t)buf, n, true, false);
    // A caller may only claim memory it owns: what is claimed gets overwritten.
    if (n)
        __real_memset(buf, '~', n > 65536 && !in_arena(buf) ? 65536 : n);
    int r = __real_vsnprintf(buf, n, fmt, ap);
    return r;
}
int __wrap_snprintf(char* buf, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vsnprintf(buf, n, fmt, ap);
    va_end(ap);
    return r;
}
int __wrap_vsprintf(char* buf, const char* fmt, va_list ap) {
    if (!active())
        return vsprintf(buf, fmt, ap);
    va_list ap2;
    va_copy(ap2, ap);
    int n = __real_vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if (n < 0)
        return n;
    if (in_arena(buf))
        check_range((uintptr_t)buf, (size_t)n + 1, true, "vsprintf");
    return __real_vsnprintf(buf, (size_t)n + 1, fmt, ap);
}
int __wrap_sprintf(char* buf, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vsprintf(buf, fmt, ap);
    va_end(ap);
    return r;
}
static void forward_fault_vasprintf() {}
int __wrap_vasprintf(char** out, const char* fmt, va_list ap) {
    forward_fault_vasprintf();
    if (!active())
        return vasprintf(out, fmt, ap);
    va_list ap2;
    va_copy(ap2, ap);
    int n = __real_vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if (n < 0 || fault(F_VSNPRINTF))
        return -1;
    char* p = (char*)__wrap_malloc((size_t)n + 1);
    if (!p)
        return -1;
    __real_vsnprintf(p, (size_t)n + 1, fmt, ap);
    *out = p;
    return n;
}
} // extern "C"

static void* op_new(size_t n, bool nothrow) {
    if (!active()) {
        void* p = __real_malloc(n ? n : 1);
        if (!p)
            __real_abort();
        return p;
    }
    sched_point(K_CALL);
    bool flt = fault(F_NEW);
    void* p = flt ? nullptr : arena_alloc(n);
    if (!p && !flt)
        me->refusals++;
    if (!p && !nothrow) {
        Quiet q;
        throw std::bad_alloc();
    }
    return p;
}
static void op_delete(void* p) {
    if (!p)
        return;
    if (in_arena(p)) {
        if (!me)
            return;
        if (!me->quiet)
            sched_point(K_CALL);
        arena_free(p);
        return;
    }
    __wrap_free(p);
}
void* operator new(size_t n) { return op_new(n, false); }
void* operator new[](size_t n) { return op_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, true); }
void operator delete(void* p) noexcept { op_delete(p); }
void operator delete[](void* p) noexcept { op_delete(p); }
void operator delete(void* p, size_t) noexcept { op_delete(p); }
void operator delete[](void* p, size_t) noexcept { op_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p); }

// ------------------------------------------------------------------------------------------
// Process termination

namespace sim {
void on_abort(void (*h)(const char*)) {
    G->abort_h = h;
}
void assert_arm(jmp_buf* env) {
    me->assert_env = env;
}
void assert_disarm() {
    me->assert_env = nullptr;
}
void abort_arm(jmp_buf* env) {
    me->abort_env = env;
}
void abort_disarm() {
    me->abort_env = nullptr;
}

[[noreturn]] static void process_dies(const char* why) {
    if (!g_in_child)
        __real_abort();
    if (me && me->abort_env && !strcmp(why, "abort")) {
        jmp_buf* e = me->abort_env;
        me->abort_env = nullptr;
        me->quiet = 0;
        longjmp(*e, 1);
    }
    if (G->abort_h) {
        void (*h)(const char*) = G->abort_h;
        G->abort_h = nullptr;
        if (me)
            me->quiet++;
        h(why);
        finish_run();
    }
    violation("abort", "the process was terminated: %s", why);
}
} // namespace sim

extern "C" {
void __wrap_abort() {
    process_dies("abort");
}
void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
    (void)fn;
    if (me && me->assert_env) {
        jmp_buf* e = me->assert_env;
        me->assert_env = nullptr;
        longjmp(*e, 1);
    }
    const char* base = strrchr(file, '/');
    violation("assert", "assertion failed: %s (%s:%u)", expr, base ? base + 1 : file, line);
}
void __wrap_exit(int c) {
    if (!active())
        _exit(c);
    process_dies("exit");
}
void __wrap__exit(int c) {
    (void)c;
    if (!active())
        syscall(SYS_exit_group, c);
    process_dies("exit");
    __builtin_unreachable();
}
void __stack_chk_fail() {
    violation("stack-smash", "a stack buffer was overrun");
}
} // extern "C"

// ------------------------------------------------------------------------------------------
// Threads

namespace sim {

template <typename F>
static F real(const char* name) {
    return (F)__real_dlsym(RTLD_NEXT, name);
}

static void thread_exit_common(int state) {
    // TSD destructors.
    // Destructors of thread-specific values.
    for (int round = 0; state == T_DONE && round < 4; round++) {
        bool any = false;
        for (int k = 0; k < TLSKEYS; k++)
            if (G->key_used[k] && G->key_dtor[k] && me->tls[k]) {
                void* v = me->tls[k];
                me->tls[k] = nullptr;
                any = true;
                G->key_dtor[k](v);
            }
        if (!any)
            break;
    }
    me->state = state;
    if (state == T_DONE) {
        wake_all(me);
        me->vc.c[me->id]++;
    }
}

static unsigned long alloc_handle() {
    // Handles of joined threads are reused at once, as pthread_t values are in practice.
    for (int i = 1; i < MAXT; i++)
        if (!G->handle_used[i]) {
            G->handle_used[i] = true;
            return 0x7000000ul + i * 0x1000ul;
        }
    return 0;
}
static void release_handle(Tcb& t) {
    if (t.handle)
        G->handle_used[(t.handle - 0x7000000ul) / 0x1000] = false;
}
int thread_by_handle(unsigned long h) {
    for (int i = G->nt - 1; i >= 0; i--)
        if (G->t[i].handle == h)
            return i;
    return -1;
}
bool thread_released(int tid) {
    return G->t[tid].joined || G->t[tid].detached;
}
const char* thread_name(int tid) {
    return G->t[tid].name;
}
uint32_t setname_calls(int tid) {
    return G->t[tid].setname_calls;
}

static void* real_thread_main(void* arg) {
    Tcb* t = (Tcb*)arg;
    // an alternate signal stack, so that overflowing the simulated one is reported too
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = (void*)(STACK_BASE + t->id * STACK_STRIDE + STACK_SIZE + 8192);
    ss.ss_size = 64 << 10;
    sigaltstack(&ss, nullptr);
    fut_wait(&t->futex);
    me = t;
    t->retval = t->start(t->arg);
    t->quiet = 0;
    if (t->id == 0)
        end_child(1);
    thread_exit_common(T_DONE);
    if (t->detached)
        release_handle(*t);
    block_here(true);
    return nullptr;
}

// Creates the real thread behind a simulated one.
static int start_real(Tcb* t) {
    typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static create_t real_create = real<create_t>("pthread_create");
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, (void*)(STACK_BASE + t->id * STACK_STRIDE), STACK_SIZE);
    pthread_t h;
    int r = real_create(&h, &attr, real_thread_main, t);
    pthread_attr_destroy(&attr);
    return r;
}

static Tcb* new_tcb(void* (*start)(void*), void* arg) {
    if (G->nt >= MAXT)
        return nullptr;
    Tcb* t = &G->t[G->nt];
    t->id = G->nt;
    t->start = start;
    t->arg = arg;
    t->state = T_RUN;
    t->vc.c[t->id] = 1;
    t->prio = 1000 + (int)G->srng.below(1000);
    t->handle = alloc_handle();
    if (me) {
        vc_join(t->vc, me->vc);
        me->vc.c[me->id]++;
    }
    int saved = me ? me->quiet : 0;
    if (me)
        me->quiet++;
    int r = start_real(t);
    if (me)
        me->quiet = saved;
    if (r)
        violation("harness", "cannot create a real thread: %d", r);
    strcpy(t->name, me ? me->name : "sim"); // as the system does it
    G->nt++;
    return t;
}

struct SpawnRec {
    void (*fn)(void*);
    void* arg;
};
static SpawnRec g_spawn[MAXT];
static void* spawn_main(void* p) {
    SpawnRec* s = (SpawnRec*)p;
    s->fn(s->arg);
    return nullptr;
}
int spawn(void (*fn)(void*), void* arg) {
    if (G->nt >= MAXT)
        violation("harness", "too many threads");
    SpawnRec* s = &g_spawn[G->nt];
    s->fn = fn;
    s->arg = arg;
    Tcb* t = new_tcb(spawn_main, s);
    t->sim_spawned = true;
    if (active())
        sched_point(K_CALL);
    return t->id;
}
static void join_tcb(Tcb* t) {
    while (t->state != T_DONE && t->state != T_CRASHED)
        block_on(t);
    if (t->state == T_DONE)
        vc_join(me->vc, t->vc);
    t->joined = true;
    release_handle(*t);
}
void join(int tid) {
    sched_point(K_CALL);
    join_tcb(&G->t[tid]);
}
void crash_point() {
    if (!active())
        return;
    sched_point(K_CALL);
    if (!fault(F_CRASH))
        return;
    wake_all(me);
    me->state = T_CRASHED;
    block_here(true);
}

// So that what is read from the stack without having been written is noticed.
__attribute__((noinline)) void dirty_stack() {
    volatile char b[4096];
    __real_memset((char*)b, 0xAC, sizeof(b));
    asm volatile("" : : "r"(b) : "memory");
}

struct RunCtx {
    const Program* p;
    int t;
    void (*body)(int, const Op&);
    void (*begin)(int);
    void (*end)(int);
};
static RunCtx g_rc[MAXT];
static void run_ctx(void* a) {
    RunCtx* c = (RunCtx*)a;
    if (c->begin)
        c->begin(c->t);
    for (size_t i = 0; i < c->p->ops.size(); i++) {
        const Op& op = c->p->ops[i];
        if (op.t == c->t) {
            dirty_stack();
            c->body(c->t, op);
        }
    }
    if (c->end)
        c->end(c->t);
}
void run_threads(const Program& p, int n, void (*body)(int, const Op&), void (*begin)(int), void (*end)(int)) {
    int ids[MAXT];
    G->no_preempt = true;
    for (int i = 0; i < n; i++) {
        g_rc[i] = RunCtx{&p, i, body, begin, end};
        ids[i] = spawn(run_ctx, &g_rc[i]);
    }
    G->no_preempt = false;
    for (int i = 0; i < n; i++)
        join(ids[i]);
}
} // namespace sim

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*start)(void*), void* arg) {
    typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!me || !g_in_child) {
        static create_t real_create = real<create_t>("pthread_create");
        return real_create(out, attr, start, arg);
    }
    if (!me->quiet)
        sched_point(K_CALL);
    if (fault(F_THREADCREATE))
        return EAGAIN;
    Tcb* t = new_tcb(start, arg);
    if (!t)
        return EAGAIN;
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        if (ds == PTHREAD_CREATE_DETACHED)
            t->detached = true;
    }
    *out = (pthread_t)t->handle;
    if (!me->quiet)
        sched_point(K_CALL);
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    if (!me || !g_in_child)
        return real<int (*)(pthread_t, void**)>("pthread_join")(h, ret);
    sched_point(K_CALL);
    int i = thread_by_handle((unsigned long)h);
    if (i < 0 || G->t[i].joined || G->t[i].detached)
        violation("thread-misuse", "pthread_join of a thread that cannot be joined");
    if (i == me->id)
        return EDEADLK;
    join_tcb(&G->t[i]);
    if (ret)
        *ret = G->t[i].retval;
    return 0;
}
int pthread_detach(pthread_t h) {
    if (!me || !g_in_child)
        return real<int (*)(pthread_t)>("pthread_detach")(h);
    sched_point(K_CALL);
    int i = thread_by_handle((unsigned long)h);
    if (i < 0 || G->t[i].joined || G->t[i].detached)
        violation("thread-misuse", "pthread_detach of a thread that cannot be detached");
    G->t[i].detached = true;
    if (G->t[i].state == T_DONE)
        release_handle(G->t[i]);
    return 0;
}
void pthread_exit(void* v) {
    if (!me || !g_in_child)
        _exit(99);
    me->retval = v;
    if (me->id == 0)
        end_child(1);
    thread_exit_common(T_DONE);
    block_here(true);
    __builtin_unreachable();
}
pthread_t __wrap_pthread_self() {
    if (!me)
        return pthread_self();
    return (pthread_t)me->handle;
}
int __wrap_pthread_equal(pthread_t a, pthread_t b) {
    return a == b;
}
int __wrap_pthread_setname_np(pthread_t h, const char* name) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    int i = thread_by_handle((unsigned long)h);
    if (i < 0 || G->t[i].joined)
        return ESRCH;
    size_t n = __wrap_strlen(name);
    G->t[i].setname_calls++;
    if (n > 15)
        return ERANGE;
    if (fault(F_SETNAME))
        return EINTR;
    __real_memcpy(G->t[i].name, name, n + 1);
    return 0;
}
int __wrap_pthread_getname_np(pthread_t h, char* out, size_t n) {
    int i = thread_by_handle((unsigned long)h);
    if (i < 0)
        return ESRCH;
    if (n < 16)
        return ERANGE;
    strcpy(out, G->t[i].name);
    return 0;
}
int sched_yield() {
    if (!active()) {
        syscall(SYS_sched_yield);
        return 0;
    }
    sched_point(K_YIELD);
    return 0;
}
static void sim_sleep(uint64_t ns) {
    sched_point(K_CALL);
    me->wake_at = G->now_ns + ns;
    me->state = T_SLEEP;
    block_here(false);
}
int nanosleep(const struct timespec* ts, struct timespec*) {
    if (!active())
        return (int)syscall(SYS_nanosleep, ts, nullptr);
    sim_sleep((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
    if (!active())
        return (int)syscall(SYS_clock_nanosleep, c, flags, ts, rem);
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (flags & TIMER_ABSTIME)
        t = t > G->now_ns ? t - G->now_ns : 0;
    sim_sleep(t);
    return 0;
}
int usleep(useconds_t us) {
    if (!active())
        return 0;
    sim_sleep((uint64_t)us * 1000);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!active())
        return (int)syscall(SYS_clock_gettime, c, ts);
    G->now_ns += 50;
    ts->tv_sec = 1000000 + (time_t)(G->now_ns / 1000000000ull);
    ts->tv_nsec = (long)(G->now_ns % 1000000000ull);
    if (c != CLOCK_REALTIME)
        return 0;
    if (fault(F_CLOCK)) {
        // Seconds since 1970 around which clocks misbehave (leap days, sign changes, 32 bits, what 64-bit nanoseconds hold).
        static const int64_t k[] = {0, 1, 951782399, 1709164799, 2147483647, 2147483648, 4294967295, 4294967296, 9223372000, 1000000000,
                                    1735689599, 68169600, -1, -2147483648, -9223372000, -86400, 253402300799, 1721000000};
        int64_t i = fault_val(F_CLOCK, 36);
        int64_t to = i < 18 ? k[i] : ts->tv_sec + G->clock_off + (i < 27 ? 1 : -1) * (fault_val(F_CLOCK, 1 << 20) % (i % 9 * i % 9 * 2000 + 2));
        if (to > 9223372000)
            to = 9223372000;
        if (to < -9223372000)
            to = -9223372000;
        G->clock_off = to - ts->tv_sec;
        G->clock_off_ns = i % 3 == 0 ? 999999999 - ts->tv_nsec : i % 3 == 1 ? -ts->tv_nsec : 0;
    }
    int64_t ns = ts->tv_nsec + G->clock_off_ns, s = ts->tv_sec + G->clock_off;
    ts->tv_nsec = (long)((ns % 1000000000 + 1000000000) % 1000000000);
    ts->tv_sec = (time_t)(s + (ns - ts->tv_nsec) / 1000000000);
    return 0;
}
} // extern "C"

// Mutexes, condition variables, once.
namespace sim {
static SimMutex* mtx(const void* m, bool create = true) {
    for (int i = 0; i < G->nmtx; i++)
        if (G->mtx[i].addr == (uintptr_t)m)
            return &G->mtx[i];
    if (!create)
        return nullptr;
    if (G->nmtx >= NMUTEX)
        violation("harness", "too many mutexes");
    SimMutex* x = &G->mtx[G->nmtx++];
    memset(x, 0, sizeof(*x));
    x->addr = (uintptr_t)m;
    x->owner = -1;
    x->kind = ((const pthread_mutex_t*)m)->__data.__kind & 3;
    return x;
}
static void check_obj(const void* m, const char* what) {
    uintptr_t a = (uintptr_t)m;
    if (arena_addr(a))
        check_range(a, 8, true, what);
    else if (a < 4096)
        violation("null-deref", "%s at %p", what, m);
}
static int mlock(const void* m) {
    check_obj(m, "mutex");
    for (;;) {
        SimMutex* x = mtx(m);
        if (x->owner < 0 && !x->readers) {
            x->owner = me->id;
            x->count = 1;
            vc_join(me->vc, x->vc);
            fold(0x10c0 + me->id);
            return 0;
        }
        if (x->owner == me->id) {
            if (x->kind == PTHREAD_MUTEX_RECURSIVE_NP) {
                x->count++;
                return 0;
            }
            if (x->kind == PTHREAD_MUTEX_ERRORCHECK_NP)
                return EDEADLK;
            violation("deadlock", "a thread locks a non-recursive mutex it already holds");
        }
        block_on(m);
    }
}
static int mtry(const void* m) {
    check_obj(m, "mutex");
    SimMutex* x = mtx(m);
    if (x->owner == me->id && x->kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        x->count++;
        return 0;
    }
    if (x->owner >= 0 || x->readers)
        return EBUSY;
    if (fault(F_TRYLOCK))
        return EBUSY;
    x->owner = me->id;
    x->count = 1;
    vc_join(me->vc, x->vc);
    fold(0x10c0 + me->id);
    return 0;
}
static int munlock(const void* m) {
    check_obj(m, "mutex");
    SimMutex* x = mtx(m);
    if (x->owner != me->id)
        violation("mutex-misuse", "a mutex is unlocked by a thread that does not hold it");
    if (--x->count > 0)
        return 0;
    x->owner = -1;
    vc_join(x->vc, me->vc);
    me->vc.c[me->id]++;
    wake_all(m);
    return 0;
}
} // namespace sim

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return mlock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return mtry(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return mlock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    int r = munlock(m);
    sched_point(K_CALL);
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    for (int i = 0; i < G->nmtx; i++)
        if (G->mtx[i].addr == (uintptr_t)m) {
            if (G->mtx[i].owner >= 0)
                violation("mutex-misuse", "a locked mutex is destroyed");
            G->mtx[i] = G->mtx[--G->nmtx];
            break;
        }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    munlock(m);
    if (!fault(F_CONDSPUR))
        block_on(c);
    return mlock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    munlock(m);
    me->wait_on = c;
    sim_sleep(1000000);
    me->wait_on = nullptr;
    mlock(m);
    return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    wake_one(c);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    wake_all(c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) {
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return mlock((const void*)m);
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return mtry((const void*)m);
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    return munlock((const void*)m);
}
static int rw_lock(pthread_rwlock_t* m, bool wr, bool tr) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    check_obj(m, "rwlock");
    for (;;) {
        SimMutex* x = mtx(m);
        if (x->owner < 0 && (!wr || !x->readers)) {
            if (wr)
                x->owner = me->id, x->count = 1;
            else
                x->readers++;
            vc_join(me->vc, x->vc);
            return 0;
        }
        if (tr)
            return EBUSY;
        block_on(m);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_lock(m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_lock(m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rw_lock(m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rw_lock(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    SimMutex* x = mtx(m);
    if (x->owner == me->id)
        return munlock(m);
    if (!x->readers)
        violation("mutex-misuse", "an rwlock nobody holds is unlocked");
    x->readers--;
    vc_join(x->vc, me->vc);
    me->vc.c[me->id]++;
    wake_all(m);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!active()) {
        if (*o == 0) {
            *o = 2;
            fn();
        }
        return 0;
    }
    for (;;) {
        sched_point(K_CALL);
        if (*o == 2) {
            hb_load((uintptr_t)o, __ATOMIC_ACQUIRE);
            return 0;
        }
        if (*o == 0) {
            *o = 1;
            fn();
            hb_store((uintptr_t)o, __ATOMIC_RELEASE, false);
            *o = 2;
            wake_all(o);
            return 0;
        }
        block_on(o);
    }
}
} // extern "C"

// Thread-specific keys.
namespace sim {
int keys_live() {
    return G->keys_live;
}
uint64_t key_refusals() {
    return G->key_fails;
}
uint64_t key_creations() {
    return G->key_makes;
}
void keys_limit(int n) {
    G->key_limit = n;
}
void keys_policy(int p) {
    G->key_policy = p;
}
bool key_is_live(unsigned k) {
    return k < (unsigned)TLSKEYS && G->key_used[k];
}
} // namespace sim
extern "C" {
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    if (!active())
        violation("harness", "pthread_key_create outside the simulation");
    sched_point(K_CALL);
    if (fault(F_KEYCREATE)) {
        G->key_fails++;
        return fault_val(F_KEYCREATE, 2) ? ENOMEM : EAGAIN;
    }
    if (G->keys_live >= G->key_limit) {
        G->key_fails++;
        return EAGAIN;
    }
    int lim = G->key_limit < TLSKEYS ? G->key_limit : TLSKEYS;
    int i = -1;
    if (G->key_policy == 2) {
        for (int j = lim - 1; j >= 0 && i < 0; j--)
            if (!G->key_used[j])
                i = j;
    } else {
        int base = G->key_policy == 1 ? G->key_next : 0;
        for (int n = 0; n < lim && i < 0; n++)
            if (!G->key_used[(base + n) % lim])
                i = (base + n) % lim;
    }
    if (i < 0) {
        G->key_fails++;
        return EAGAIN;
    }
    G->key_makes++;
    G->key_dtor[i] = d;
    G->key_next = i + 1;
    G->key_used[i] = true;
    G->keys_live++;
    for (int t = 0; t < MAXT; t++)
        G->t[t].tls[i] = nullptr;
    // The write of the result is an ordinary store into the caller's memory.
    uintptr_t a = (uintptr_t)k;
    if (arena_addr(a)) {
        check_range(a, sizeof(*k), true, "key");
        race_range(cells, a - ARENA_BASE, a, sizeof(*k), true, false);
    }
    *k = (pthread_key_t)i;
    sched_point(K_CALL);
    return 0;
}
int __wrap_pthread_key_delete(pthread_key_t k) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    if (k >= (unsigned)TLSKEYS || !G->key_used[k])
        violation("key-misuse", "deletion of a thread-specific slot that is not allocated (%u)", (unsigned)k);
    G->key_used[k] = false;
    G->keys_live--;
    return 0;
}
void* __wrap_pthread_getspecific(pthread_key_t k) {
    if (!active())
        return nullptr;
    sched_point(K_CALL);
    if (k >= (unsigned)TLSKEYS || !G->key_used[k])
        violation("key-misuse", "read through a thread-specific slot that is not allocated (%u)", (unsigned)k);
    return me->tls[k];
}
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    if (k >= (unsigned)TLSKEYS || !G->key_used[k])
        violation("key-misuse", "write through a thread-specific slot that is not allocated (%u)", (unsigned)k);
    if (fault(F_SETSPECIFIC)) {
        G->key_fails++;
        return ENOMEM;
    }
    me->tls[k] = (void*)v;
    return 0;
}
} // extern "C"

// ------------------------------------------------------------------------------------------
// Files: a scheduling point and a possible failure, then the real call in a scratch directory.

static const int kStatErr[] = {EACCES, ELOOP, ENAMETOOLONG, EIO, ENOMEM, EINTR, EOVERFLOW, ENOTDIR,
                                ESTALE, EAGAIN, EPERM, ETIMEDOUT};
static const int kMkdirErr[] = {EACCES, EMLINK, ENOSPC, EROFS, EIO, ENOMEM, EDQUOT, EEXIST,
                                 EINTR, EAGAIN, ESTALE, EPERM, ELOOP, EBUSY, ETIMEDOUT, EINTR};
namespace sim {
void on_fs_change(void (*h)(const char*)) {
    G->fs_change = h;
}
} // namespace sim
extern "C" {
static bool stat_fault() {
    sched_point(K_CALL);
    if (!fault(F_STAT))
        return false;
    errno = kStatErr[fault_val(F_STAT, 12)];
    return true;
}
int __wrap_stat(const char* p, struct stat* s) {
    if (!active())
        return __real_stat(p, s);
    // On failure the contents of |s| are unspecified.
    __real_memset(s, 0x55, sizeof(*s));
    s->st_mode = G->frng.s & 1 ? (S_IFREG | 0644) : (S_IFDIR | 0755);
    if (stat_fault())
        return -1;
    int r = __real_stat(p, s);
    int e = errno;
    sched_point(K_CALL);
    errno = e;
    return r;
}
int __wrap_lstat(const char* p, struct stat* s) {
    if (!active())
        return __real_lstat(p, s);
    if (stat_fault())
        return -1;
    int r = __real_lstat(p, s);
    int e = errno;
    sched_point(K_CALL);
    errno = e;
    return r;
}
int __wrap_fstatat(int fd, const char* p, struct stat* s, int f) {
    if (!active())
        return __real_fstatat(fd, p, s, f);
    if (stat_fault())
        return -1;
    int r = __real_fstatat(fd, p, s, f);
    int e = errno;
    sched_point(K_CALL);
    errno = e;
    return r;
}
int __wrap_access(const char* p, int m) {
    if (!active())
        return __real_access(p, m);
    if (stat_fault())
        return -1;
    int r = __real_access(p, m);
    int e = errno;
    sched_point(K_CALL);
    errno = e;
    return r;
}
static int make_dir(int fd, const char* p, mode_t m) {
    sched_point(K_CALL);
    if (fault(F_MKDIR)) {
        errno = kMkdirErr[fault_val(F_MKDIR, 16)];
        return -1;
    }
    int r = mkdirat(fd, p, m);
    int e = errno;
    if (r == 0 && G->fs_change) {
        me->quiet++;
        G->fs_change(p);
        me->quiet--;
    }
    sched_point(K_CALL);
    errno = e;
    return r;
}
int __wrap_mkdir(const char* p, mode_t m) {
    if (!active())
        return __real_mkdir(p, m);
    return make_dir(AT_FDCWD, p, m);
}
int __wrap_mkdirat(int fd, const char* p, mode_t m) {
    if (!active())
        return mkdirat(fd, p, m);
    return make_dir(fd, p, m);
}
int __wrap_chmod(const char* p, mode_t m) {
    if (active())
        sched_point(K_CALL);
    return chmod(p, m);
}
mode_t __wrap_umask(mode_t m) {
    if (active())
        sched_point(K_CALL);
    mode_t r = umask(m);
    if (active())
        sched_point(K_CALL);
    return r;
}
int __wrap_open(const char* p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    if (active() && stat_fault())
        return -1;
    return __real_open(p, f, m);
}
} // extern "C"

// ------------------------------------------------------------------------------------------
// Dynamic loader stub: libraries "lib0.so".."lib15.so"; lib<i>.so exists iff i % 4 != 3; symbols
// "sym0".."sym7" exist in library i iff (i + s) % 3 != 2.

namespace sim {
static const uintptr_t LIB_BASE = 0x700000000ull;
const char* lib_name(int i) {
    static char names[16][16];
    snprintf(names[i & 15], 16, "lib%d.so", i & 15);
    return names[i & 15];
}
static int lib_index(const char* p) {
    int i = -1, len = 0;
    while (p[0] == '.' && p[1] == '/')
        p += 2;
    if (sscanf(p, "lib%d.so%n", &i, &len) != 1 || !len || p[len] || i < 0 || i > 15)
        return -1;
    return i % 4 == 3 ? -1 : i;
}
int lib_of_handle(void* h) {
    uintptr_t a = (uintptr_t)h;
    if (a < LIB_BASE || a >= LIB_BASE + 16 * 0x1000 || (a & 0xfff))
        return -1;
    int i = (int)((a - LIB_BASE) / 0x1000);
    return G->opens[i] > G->closes[i] ? i : -1;
}
void* lib_symbol(int lib, int s) {
    if (lib < 0 || s < 0 || s > 7 || (lib + s) % 3 == 2)
        return nullptr;
    return (void*)(LIB_BASE + 0x100000 + lib * 0x1000 + s * 16);
}
int lib_handles_open() {
    int n = 0;
    for (int i = 0; i < 16; i++)
        n += G->opens[i] - G->closes[i];
    return n;
}
int lib_open_count(int i) {
    return G->opens[i & 15] - G->closes[i & 15];
}
uint64_t lib_opens() {
    return G->nopens;
}
void* lib_raw_open(int i) {
    i &= 15;
    G->opens[i]++;
    G->nopens++;
    return (void*)(LIB_BASE + i * 0x1000);
}
const char* last_dlerror() {
    return me->dlerr_last;
}
static void set_dlerr(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    __real_vsnprintf(me->dlerr, sizeof(me->dlerr), fmt, ap);
    va_end(ap);
    me->dlerr_set = true;
    strcpy(me->dlerr_last, me->dlerr);
}
static const char* const kDlErr[] = {"cannot open shared object file: No such file or directory",
                                     "invalid ELF header",
                                     "cannot allocate memory in static TLS block",
                                     "undefined symbol: _ZN7missing1xEv",
                                     "wrong ELF class: ELFCLASS32",
                                     ""};
} // namespace sim
extern "C" {
void* __wrap_dlopen(const char* path, int flags) {
    if (!active())
        return nullptr;
    sched_point(K_CALL);
    int i = path ? lib_index(path) : 0;
    int u = -1;
    void* r = nullptr;
    if (path && !(flags & RTLD_NOW) && sscanf(path, "unresolved%d", &u) == 1)
        i = u & 12;  // such a library opens as long as nobody asks for all it refers to
    if ((flags & RTLD_NOLOAD) && i >= 0 && !lib_open_count(i))
        return nullptr;
    if (fault(F_DLOPEN)) {
        set_dlerr("%s: T%d: %s", path, me->id, kDlErr[fault_val(F_DLOPEN, 6)]);
    } else if (i < 0) {
        set_dlerr("%s: T%d: %s", path, me->id, kDlErr[strncmp(path, "unresolved", 10) ? 0 : 3]);
    } else {
        r = lib_raw_open(i);
        if (flags & RTLD_NODELETE)
            G->opens[i]++;
    }
    sched_point(K_CALL);
    return r;
}
void* __wrap_dlsym(void* h, const char* sym) {
    if (!active())
        return __real_dlsym(h, sym);
    sched_point(K_CALL);
    int i = lib_of_handle(h);
    if (i < 0)
        violation("lib-misuse", "dlsym on a handle that is not open");
    int s = -1, len = 0;
    // sym<number>, decorated by any number of x.
    if (sscanf(sym, "sym%d%n", &s, &len) != 1 || sym[len + strspn(sym + len, "x")])
        s = -1;
    void* r = lib_symbol(i, s);
    if (r && fault(F_DLSYM))
        r = nullptr;
    if (!r)
        set_dlerr("lib%d.so: T%d: undefined symbol: %s", i, me->id, sym);
    sched_point(K_CALL);
    return r;
}
int __wrap_dlclose(void* h) {
    if (!active())
        return 0;
    sched_point(K_CALL);
    int i = lib_of_handle(h);
    if (i < 0)
        violation("lib-misuse", "dlclose of a handle that is not open");
    G->closes[i]++;
    if (fault(F_DLCLOSE)) {
        set_dlerr("lib%d.so: T%d: dlclose failed", i, me->id);
        return -1;
    }
    return 0;
}
char* __wrap_dlerror() {
    if (!active())
        return nullptr;
    sched_point(K_CALL);
    if (!me->dlerr_set)
        return nullptr;
    me->dlerr_set = false;
    return me->dlerr;
}
char* __wrap_strerror(int code) {
    if (!active())
        return strerror(code);
    // POSIX: "may be overwritten by a subsequent call to strerror()", in any thread.
    sched_point(K_CALL);
    const char* r = strerrordesc_np(code);
    if (r)
        snprintf(G->strerror_buf, sizeof(G->strerror_buf), "%s", r);
    else
        snprintf(G->strerror_buf, sizeof(G->strerror_buf), "Unknown error %d", code);
    sched_point(K_CALL);
    return G->strerror_buf;
}
char* __wrap_strerror_r(int code, char* buf, size_t n) {
    if (!active())
        return __real_strerror_r(code, buf, n);
    sched_point(K_CALL);
    if (n && in_arena(buf)) {
        check_range((uintptr_t)buf, n, true, "strerror_r buffer");
        race_range(cells, (uintptr_t)buf - ARENA_BASE, (uintptr_t)buf, n, true, false);
    }
    char* r = __real_strerror_r(code, buf, n);
    // glibc either fills the buffer or returns a constant; both are legal for any code, so vary.
    if (n && fault(F_SYSCALL)) {
        if (r == buf) {
            // Hand out an immutable string instead of filling the buffer.
            static char consts[MAXT][64];
            snprintf(consts[me->id], 64, "Unknown error %d", code);
            r = consts[me->id];
            __real_memset(buf, '?', n < 3 ? n : 3);
        } else {
            size_t k = strlen(r);
            if (k > n - 1)
                k = n - 1;
            __real_memcpy(buf, r, k);
            buf[k] = 0;
            r = buf;
        }
    }
    errno = fault_val(F_SYSCALL, 2) ? EINVAL : errno;
    sched_point(K_CALL);
    return r;
}
} // extern "C"

// ------------------------------------------------------------------------------------------
// Linearizability of a register

namespace sim {
bool register_linearizable(const std::vector<RegOp>& h, int64_t init, bool* gave_up) {
    *gave_up = false;
    size_t n = h.size();
    if (n > 60) {
        *gave_up = true;
        return true;
    }
    uint64_t must = 0;
    for (size_t i = 0; i < n; i++)
        if (h[i].ret >= 0)
            must |= 1ull << i;
    struct Key {
        uint64_t mask;
        int64_t val;
        bool operator==(const Key& o) const { return mask == o.mask && val == o.val; }
    };
    struct H {
        size_t operator()(const Key& k) const { return k.mask * 0x9E3779B97F4A7C15ull ^ (uint64_t)k.val * 31; }
    };
    std::unordered_set<Key, H> seen;
    std::vector<Key> stack;
    stack.push_back(Key{0, init});
    while (!stack.empty()) {
        Key k = stack.back();
        stack.pop_back();
        if ((k.mask & must) == must)
            return true;
        if (!seen.insert(k).second)
            continue;
        if (seen.size() > 300000) {
            *gave_up = true;
            return true;
        }
        int64_t bound = INT64_MAX; // earliest return among pending completed ops
        for (size_t i = 0; i < n; i++)
            if (!(k.mask >> i & 1) && h[i].ret >= 0 && h[i].ret < bound)
                bound = h[i].ret;
        for (size_t i = 0; i < n; i++) {
            if ((k.mask >> i & 1) || h[i].inv > bound)
                continue;
            if (h[i].write)
                stack.push_back(Key{k.mask | 1ull << i, h[i].val});
            else if (h[i].val == k.val)
                stack.push_back(Key{k.mask | 1ull << i, k.val});
        }
    }
    return false;
}

// ------------------------------------------------------------------------------------------
// Scenario registry

static const Scenario* g_scen[128];
static int g_nscen;
Register::Register(const Scenario* s) {
    g_scen[g_nscen++] = s;
}
static const Scenario* find_scen(const char* n) {
    for (int i = 0; i < g_nscen; i++)
        if (!strcmp(g_scen[i]->name, n))
            return g_scen[i];
    return nullptr;
}

// ------------------------------------------------------------------------------------------
// One run

struct Tape {
    std::vector<SwEnt> sw;
    std::vector<FaultEnt> faults;
};

static const Scenario* g_cur_scen;
static Program* g_prog;

static void* run_main(void*) {
    {
        me->quiet = 1;
        // Heap behaviour is the first parameter of every program.
        int64_t hm = g_prog->p(0);
        G->heap_mode = (int)(((hm % 3) + 3) % 3);
        me->quiet = 0;
    }
    try {
        g_cur_scen->run(*g_prog);
    } catch (...) {
        violation("terminate", "an exception escaped the scenario");
    }
    return nullptr;
}

static void on_signal(int sig, siginfo_t* si, void*) {
    const char* cls = "crash";
    char buf[200];
    uintptr_t a = (uintptr_t)si->si_addr;
    if (sig == SIGSEGV && a < 4096)
        cls = "null-deref";
    snprintf(buf, sizeof(buf), "signal %d (%s)", sig,
             sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL");
    if (me)
        me->quiet = 1000;
    violation(cls, "%s", buf);
}

static void on_terminate() {
    if (G && G->abort_h && me)
        process_dies("terminate");
    violation("terminate", "std::terminate was called");
}

static void choose_strategy() {
    Rng& r = G->srng;
    static const double ps[] = {0.005, 0.02, 0.08, 0.25, 0.5};
    G->strat = (int)r.below(5);
    double p = ps[r.below(5)];
    G->p_plain = G->p_atomic = G->p_call = p;
    if (G->strat == 1) {
        G->p_plain = 0.02;
        G->p_atomic = 0.15 + 0.15 * r.below(4);
        G->p_call = 0.1 + 0.1 * r.below(4);
    }
    G->quantum = 1 + r.below(r.chance(0.5) ? 8 : 60);
    static const uint64_t lens[] = {60, 150, 400, 1000, 3000};
    uint64_t len = lens[r.below(5)];
    G->nchange = 1 + (int)r.below(5);
    for (int i = 0; i < G->nchange; i++)
        G->change[i] = 1 + r.below(len);
    G->lowprio = 0;
    G->stalls = r.chance(0.25);
    G->p_stall = 0.002 + 0.01 * r.below(3);
}

// Executes one run in a forked child.
static void run_child(const Scenario* sc, uint64_t seed, const Program* prog, const Tape* tape, bool own_sched) {
    // Kernels (6.16 and later) give a process with many threads a futex table of its own, and when it grows they
    // free the memory of the process only some time after its end: many runs in a row then fill the machine.
    prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0ul, 0ul, 0ul);
    g_in_child = true;
    g_cur_scen = sc;
    // private simulated state
    void* st = mmap((void*)STATE_BASE, sizeof(State), PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (st != (void*)STATE_BASE)
        _exit(97);
    G = (State*)st;
    // Only what differs from zero; new() would touch the whole thing.
    G->max_steps = 60000;
    G->hash = 0xcbf29ce484222325ull;
    G->key_limit = 64;
    G->srng = Rng(seed * 3 + 1);
    G->frng = Rng(seed * 3 + 2);
    G->grng = Rng(seed * 3 + 3);
    if (tape && !own_sched) {
        G->replay = true;
        G->rsw = tape->sw.data();
        G->nrsw = tape->sw.size();
    } else {
        choose_strategy();
    }
    if (tape) {
        G->rf = tape->faults.data();
        G->nrf = tape->faults.size();
    }
    static Program p;
    if (prog) {
        p = *prog;
    } else {
        sc->gen(G->grng, p);
        if (p.params.empty())
            p.params.push_back(0);
    }
    if (p.ops.size() > (size_t)MAX_OPS)
        p.ops.resize(MAX_OPS);
    if (p.params.size() > (size_t)MAX_PARAMS)
        p.params.resize(MAX_PARAMS);
    R->nops = p.ops.size();
    R->nparams = p.params.size();
    for (size_t i = 0; i < p.ops.size(); i++) {
        R->ops[i] = p.ops[i];
        fold(p.ops[i].t * 977 + p.ops[i].code * 31 + (uint64_t)p.ops[i].a * 7 + (uint64_t)p.ops[i].b * 3 + p.ops[i].c);
    }
    for (size_t i = 0; i < p.params.size(); i++) {
        R->params[i] = p.params[i];
        fold((uint64_t)p.params[i]);
    }
    g_prog = &p;
    std::set_terminate(on_terminate);
    // Threads of this process are only ever runnable one at a time.
    struct rlimit rl = {6, 8};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGXCPU, SIG_DFL);
    alarm(120);
    Tcb* t = new_tcb(run_main, nullptr);
    fut_post(&t->futex);
    for (;;)
        pause();
}

struct Result {
    bool ok = false, bad = false;
    std::string cls, msg;
    uint64_t hash = 0;
};

static void reset_res() {
    R->status = 0;
    R->cls[0] = R->msg[0] = 0;
    R->hash = R->steps = R->sim_ns = 0;
    R->preempts = R->switches = R->nthreads = 0;
    R->nsw = R->nfaults = R->nops = R->nparams = 0;
    R->overflow = 0;
    memset(R->q, 0, sizeof(R->q));
    memset(R->h, 0, sizeof(R->h));
    R->nprobes = 0;
}

static char g_scratch[256];

static void clean_dir(const char* d) {
    DIR* dir = opendir(d);
    if (!dir)
        return;
    while (dirent* e = readdir(dir)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
            continue;
        std::string p = std::string(d) + "/" + e->d_name;
        struct stat s;
        if (__real_lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) {
            chmod(p.c_str(), 0755);
            clean_dir(p.c_str());
            rmdir(p.c_str());
        } else {
            unlink(p.c_str());
        }
    }
    closedir(dir);
}

// Waits while memory is short, which is when the kernel is late in cleaning up after earlier runs.
static void memory_check() {
    static unsigned calls = 0;
    static int fd = -2;
    if (calls++ % 32)
        return;
    if (fd == -2)
        fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC);
    for (int k = 0; fd >= 0 && k < 500; k++) {
        char b[512];
        ssize_t n = pread(fd, b, sizeof(b) - 1, 0);
        if (n <= 0)
            return;
        b[n] = 0;
        const char *total = strstr(b, "MemTotal:"), *avail = strstr(b, "MemAvailable:");
        if (!total || !avail || atol(avail + 13) > atol(total + 9) / 4)
            return;
        usleep(20000);
    }
    fd = -1;  // then it is somebody else's
}

static Result run_one(const Scenario* sc, uint64_t seed, const Program* prog, const Tape* tape, bool own_sched = false) {
    memory_check();
    reset_res();
    pid_t pid = fork();
    if (pid < 0) {
        fprintf(stdout, "ERROR fork\n");
        exit(3);
    }
    if (pid == 0)
        run_child(sc, seed, prog, tape, own_sched);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    Result r;
    if (R->status == 1) {
        r.ok = true;
        r.hash = R->hash;
    } else if (R->status == 2) {
        r.bad = true;
        r.cls = R->cls;
        r.msg = R->msg;
        r.hash = R->hash;
    } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
        r.bad = true;
        r.cls = "hang";
        r.msg = "the run never ended (no simulated step taken)";
        r.hash = 1;
    } else {
        r.bad = true;
        r.cls = "crash";
        r.msg = "the process died";
        if (WIFSIGNALED(st))
            r.msg += " of signal " + std::to_string(WTERMSIG(st));
        else if (WIFEXITED(st))
            r.msg += " with exit code " + std::to_string(WEXITSTATUS(st));
        r.hash = 2;
    }
    if (g_scratch[0])
        clean_dir(g_scratch);
    return r;
}

static void grab(Program& p, Tape& t) {
    p.params.assign(R->params, R->params + R->nparams);
    p.ops.assign(R->ops, R->ops + R->nops);
    t.sw.assign(R->sw, R->sw + R->nsw);
    t.faults.assign(R->faults, R->faults + R->nfaults);
}

// ------------------------------------------------------------------------------------------
// Replay files

struct Replay {
    std::string property, scenario, build, cls, msg;
    uint64_t seed = 0, hash = 0;
    Program prog;
    Tape tape;
};

static void save_replay(const char* path, const Replay& r) {
    FILE* f = fopen(path, "w");
    if (!f) {
        printf("ERROR cannot write %s\n", path);
        exit(3);
    }
    fprintf(f, "amtl-sim-replay 1\n");
    fprintf(f, "property %s\nscenario %s\nbuild %s\nseed %llu\nclass %s\nhash %016llx\n", r.property.c_str(),
            r.scenario.c_str(), r.build.c_str(), (unsigned long long)r.seed, r.cls.c_str(),
            (unsigned long long)r.hash);
    fprintf(f, "message %s\n", r.msg.c_str());
    fprintf(f, "params");
    for (int64_t v : r.prog.params)
        fprintf(f, " %lld", (long long)v);
    fprintf(f, "\n# op <thread> <code> <a> <b> <c>\n");
    for (const Op& o : r.prog.ops)
        fprintf(f, "op %d %d %lld %lld %lld\n", o.t, o.code, (long long)o.a, (long long)o.b, (long long)o.c);
    fprintf(f, "# sw <step> <thread>: at that step the scheduler picks this thread instead of the default\n");
    for (const SwEnt& s : r.tape.sw)
        fprintf(f, "sw %u %u\n", s.step, s.tid);
    fprintf(f, "# fault <site> <occurrence> <value>\n");
    for (const FaultEnt& e : r.tape.faults)
        fprintf(f, "fault %s %u %lld\n", kSiteName[e.site], e.idx, (long long)e.val);
    fclose(f);
}

static bool load_replay(const char* path, Replay& r) {
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char line[4096];
    while (fgets(line, sizeof(line), f)) {
        size_t n = strlen(line);
        while (n && (line[n - 1] == '\n' || line[n - 1] == '\r'))
            line[--n] = 0;
        char* sp = strchr(line, ' ');
        std::string key = sp ? std::string(line, sp - line) : line;
        const char* rest = sp ? sp + 1 : "";
        if (key == "property")
            r.property = rest;
        else if (key == "scenario")
            r.scenario = rest;
        else if (key == "build")
            r.build = rest;
        else if (key == "class")
            r.cls = rest;
        else if (key == "message")
            r.msg = rest;
        else if (key == "seed")
            r.seed = strtoull(rest, nullptr, 10);
        else if (key == "hash")
            r.hash = strtoull(rest, nullptr, 16);
        else if (key == "params") {
            const char* c = rest;
            char* e;
            for (;;) {
                long long v = strtoll(c, &e, 10);
                if (e == c)
                    break;
                r.prog.params.push_back(v);
                c = e;
            }
        } else if (key == "op") {
            Op o;
            long long a = 0, b = 0, c = 0;
            sscanf(rest, "%d %d %lld %lld %lld", &o.t, &o.code, &a, &b, &c);
            o.a = a;
            o.b = b;
            o.c = c;
            r.prog.ops.push_back(o);
        } else if (key == "sw") {
            SwEnt s;
            sscanf(rest, "%u %u", &s.step, &s.tid);
            r.tape.sw.push_back(s);
        } else if (key == "fault") {
            char nm[64];
            FaultEnt e;
            long long v = 0;
            sscanf(rest, "%63s %u %lld", nm, &e.idx, &v);
            e.val = v;
            e.site = -1;
            for (int i = 0; i < F_NSITES; i++)
                if (!strcmp(nm, kSiteName[i]))
                    e.site = i;
            if (e.site >= 0)
                r.tape.faults.push_back(e);
        }
    }
    fclose(f);
    return true;
}

// ------------------------------------------------------------------------------------------
// Minimiser

static double now_s() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Minimizer {
    const Scenario* sc;
    std::string cls;
    Replay best;
    double deadline;
    uint64_t tries = 0;

    bool accept(const Result& r) {
        if (!r.bad || r.cls != cls || R->overflow)
            return false;
        // adopt what was actually executed
        grab(best.prog, best.tape);
        best.msg = r.msg;
        best.hash = r.hash;
        return true;
    }
    bool timeup() { return now_s() > deadline; }
    bool try_exact(const Program& p, const Tape& t) {
        tries++;
        return accept(run_one(sc, best.seed, &p, &t));
    }
    // The same program and other schedules/faults: is the class still reachable?
    bool try_search(const Program& p, int n) {
        for (int i = 0; i < n && !timeup(); i++) {
            tries++;
            if (accept(run_one(sc, 0x5eed0000 + i * 7919 + tries, &p, nullptr)))
                return true;
        }
        return false;
    }
    bool attempt(const Program& p, const Tape& t, int search) {
        if (try_exact(p, t))
            return true;
        return search > 0 && try_search(p, search);
    }
    void ops(int search) {
        size_t chunk = best.prog.ops.size() / 2;
        if (!chunk)
            chunk = 1;
        while (!timeup()) {
            bool any = false;
            for (size_t i = 0; i < best.prog.ops.size() && !timeup();) {
                Program p = best.prog;
                size_t e = i + chunk < p.ops.size() ? i + chunk : p.ops.size();
                p.ops.erase(p.ops.begin() + i, p.ops.begin() + e);
                if (attempt(p, best.tape, search))
                    any = true;
                else
                    i += chunk;
            }
            if (chunk > 1)
                chunk = (chunk + 1) / 2;
            else if (!any)
                break;
        }
    }
    void values(int search) {
        for (size_t i = 0; i < best.prog.params.size() && !timeup(); i++) {
            if (!best.prog.params[i])
                continue;
            Program p = best.prog;
            p.params[i] = 0;
            if (attempt(p, best.tape, search))
                continue;
            p.params[i] = best.prog.params[i] / 2;
            if (p.params[i])
                attempt(p, best.tape, search);
        }
        for (size_t i = 0; i < best.prog.ops.size() && !timeup(); i++) {
            for (int k = 0; k < 3; k++) {
                int64_t v = k == 0 ? best.prog.ops[i].a : k == 1 ? best.prog.ops[i].b : best.prog.ops[i].c;
                if (!v)
                    continue;
                Program p = best.prog;
                int64_t& x = k == 0 ? p.ops[i].a : k == 1 ? p.ops[i].b : p.ops[i].c;
                x = 0;
                if (attempt(p, best.tape, search / 4))
                    continue;
                x = v / 2;
                if (x)
                    attempt(p, best.tape, 0);
            }
        }
    }
    template <typename V>
    void list(V Tape::*m) {
        size_t chunk = (best.tape.*m).size() / 2;
        if (!chunk)
            chunk = 1;
        while (!timeup()) {
            bool any = false;
            for (size_t i = 0; i < (best.tape.*m).size() && !timeup();) {
                Tape t = best.tape;
                V& v = t.*m;
                size_t e = i + chunk < v.size() ? i + chunk : v.size();
                v.erase(v.begin() + i, v.begin() + e);
                size_t before = (best.tape.*m).size();
                if (try_exact(best.prog, t) && (best.tape.*m).size() < before)
                    any = true;
                else
                    i += chunk;
            }
            if (chunk > 1)
                chunk = (chunk + 1) / 2;
            else if (!any)
                break;
        }
    }
    void run() {
        ops(0);
        list(&Tape::faults);
        ops(12);
        values(8);
        list(&Tape::sw);
        list(&Tape::faults);
        ops(0);
        list(&Tape::sw);
    }
};

// ------------------------------------------------------------------------------------------
// Driver

static std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if ((unsigned char)c < 32)
            o += ' ';
        else
            o += c;
    }
    return o + "\"";
}

static std::string sample_json(const char* scen, uint64_t seed) {
    std::string s = "{\"scenario\":" + json_str(scen) + ",\"seed\":" + std::to_string(seed);
    s += ",\"params\":[";
    for (uint32_t i = 0; i < R->nparams; i++)
        s += (i ? "," : "") + std::to_string(R->params[i]);
    s += "],\"ops\":[";
    for (uint32_t i = 0; i < R->nops && i < 40; i++) {
        const Op& o = R->ops[i];
        s += (i ? ",[" : "[") + std::to_string(o.t) + "," + std::to_string(o.code) + "," + std::to_string(o.a) + "," +
             std::to_string(o.b) + "," + std::to_string(o.c) + "]";
    }
    s += "],\"faults\":[";
    for (uint32_t i = 0; i < R->nfaults && i < 20; i++)
        s += (i ? "," : "") + json_str(std::string(kSiteName[R->faults[i].site]) + "#" + std::to_string(R->faults[i].idx));
    s += "],\"steps\":" + std::to_string(R->steps) + ",\"switches\":" + std::to_string(R->switches) +
         ",\"preemptions\":" + std::to_string(R->preempts) + ",\"threads\":" + std::to_string(R->nthreads) + "}";
    return s;
}

static const char* arg(int argc, char** argv, const char* name, const char* def) {
    for (int i = 1; i + 1 < argc; i++)
        if (!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}

static bool in_list(const char* list, const std::string& s) {
    std::string l = std::string(",") + list + ",";
    return l.find("," + s + ",") != std::string::npos;
}

} // namespace sim

int sim_main(int argc, char** argv, void* glo, void* ghi, void* qlo, void* qhi) {
    g_qlo = (uintptr_t)qlo;
    g_qhi = (uintptr_t)qhi;
    g_glo = (uintptr_t)glo & ~uintptr_t(7);
    g_ghi = (uintptr_t)ghi;
    // Identical addresses in every process.
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    if (argc < 2)
        return 2;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    int cpu = atoi(arg(argc, argv, "--cpu", "-1"));
    if (cpu >= 0) {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET(cpu, &s);
        sched_setaffinity(0, sizeof(s), &s);
    } else {
        // one at a time anyway: hand-offs are fastest on one CPU
        cpu_set_t cur, s;
        sched_getaffinity(0, sizeof(cur), &cur);
        int n = CPU_COUNT(&cur), pick = (int)(getpid() % (n ? n : 1));
        CPU_ZERO(&s);
        for (int i = 0, k = 0; i < CPU_SETSIZE; i++)
            if (CPU_ISSET(i, &cur) && k++ == pick)
                CPU_SET(i, &s);
        sched_setaffinity(0, sizeof(s), &s);
    }
    umask(0);
    auto map = [](uintptr_t at, size_t n, int flags) -> void* {
        void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE,
                       flags | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED || (at && p != (void*)at)) {
            printf("ERROR mmap\n");
            _exit(3);
        }
        return p;
    };
    R = (SharedRes*)map(0, sizeof(SharedRes), MAP_SHARED);
    map(ARENA_BASE, ARENA_SIZE, MAP_PRIVATE);
    shadow = (uint8_t*)map(ARENA_BASE + 0x1000000000ull, ARENA_SIZE, MAP_PRIVATE);
    cells = (uint64_t*)map(ARENA_BASE + 0x2000000000ull, ARENA_SIZE * 4, MAP_PRIVATE);
    blks = (Blk*)map(ARENA_BASE + 0x3000000000ull, (ARENA_SIZE >> 4) * sizeof(Blk), MAP_PRIVATE);
    gcells = (uint64_t*)map(ARENA_BASE + 0x4000000000ull, (g_ghi - g_glo + 64) * 4, MAP_PRIVATE);
    map(STACK_BASE, STACK_STRIDE * MAXT, MAP_PRIVATE);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL};
    for (int s : sigs)
        sigaction(s, &sa, nullptr);
    int devnull = open("/dev/null", O_WRONLY);
    if (!getenv("SIM_STDERR"))
        dup2(devnull, 2);

    std::string mode = argv[1];
    const char* scratch = arg(argc, argv, "--scratch", "");
    if (*scratch) {
        snprintf(g_scratch, sizeof(g_scratch), "%s/w%d", scratch, (int)getpid());
        mkdir(g_scratch, 0755);
        if (chdir(g_scratch)) {
            printf("ERROR scratch\n");
            return 3;
        }
    }
    auto done = [&](int rc) {
        if (g_scratch[0]) {
            clean_dir(g_scratch);
            if (chdir("/") == 0)
                rmdir(g_scratch);
        }
        fflush(stdout);
        _exit(rc);
    };

    if (mode == "list") {
        for (int i = 0; i < g_nscen; i++)
            printf("%s\n", g_scen[i]->name);
        done(0);
    }
    if (mode == "run") {
        const Scenario* sc = find_scen(arg(argc, argv, "--scen", ""));
        if (!sc)
            done(3);
        uint64_t seed0 = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        uint64_t start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
        uint64_t stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
        uint64_t count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
        double cap = atof(arg(argc, argv, "--cap", "30"));
        const char* ignore = arg(argc, argv, "--ignore", "");
        const char* hashes = arg(argc, argv, "--hashes", "");
        bool dump = *arg(argc, argv, "--dump", "");
        int maxviol = atoi(arg(argc, argv, "--maxviol", "3"));
        double t0 = now_s();
        uint64_t n = 0, steps = 0, simns = 0, preempts = 0, switches = 0, nontrivial = 0, ignored = 0, sched_nt = 0;
        uint64_t q[F_NSITES] = {}, h[F_NSITES] = {}, hr[F_NSITES] = {};
        std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
        std::vector<std::string> viols, samples;
        FILE* hf = *hashes ? fopen(hashes, "wb") : nullptr;
        for (uint64_t i = 0; i < count; i++) {
            if (now_s() - t0 > cap)
                break;
            uint64_t seed = seed0 * 1000003ull + (start + i * stride);
            Result r = run_one(sc, seed, nullptr, nullptr);
            n++;
            steps += R->steps;
            simns += R->sim_ns;
            preempts += R->preempts;
            switches += R->switches;
            bool anyfault = false;
            for (int s = 0; s < F_NSITES; s++) {
                q[s] += R->q[s];
                h[s] += R->h[s];
                if (R->h[s]) {
                    hr[s]++;
                    anyfault = true;
                }
            }
            for (uint32_t k = 0; k < R->nprobes; k++) {
                auto& e = probes[R->probes[k].name];
                e.first += R->probes[k].n;
                e.second++;
            }
            bool nt = R->preempts > 0 || anyfault;
            if (nt) {
                nontrivial++;
                if (hf)
                    fwrite(&R->hash, 8, 1, hf);
            }
            if (R->preempts)
                sched_nt++;
            if (nt && samples.size() < 2 && R->nops && R->nops <= 24)
                samples.push_back(sample_json(sc->name, seed));
            if (dump)
                printf("%llu %016llx %llu %s\n", (unsigned long long)seed, (unsigned long long)r.hash,
                       (unsigned long long)R->steps, r.bad ? r.cls.c_str() : "ok");
            if (r.bad) {
                if (in_list(ignore, r.cls)) {
                    ignored++;
                    continue;
                }
                viols.push_back("{\"seed\":" + std::to_string(seed) + ",\"class\":" + json_str(r.cls) +
                                ",\"msg\":" + json_str(r.msg) + ",\"hash\":\"" + std::to_string(r.hash) + "\"}");
                if ((int)viols.size() >= maxviol || r.cls == "hang")
                    break;
            }
        }
        if (hf)
            fclose(hf);
        std::string o = "{\"scenario\":" + json_str(sc->name) + ",\"runs\":" + std::to_string(n) +
                        ",\"wall\":" + std::to_string(now_s() - t0) + ",\"steps\":" + std::to_string(steps) +
                        ",\"sim_ns\":" + std::to_string(simns) + ",\"preempts\":" + std::to_string(preempts) +
                        ",\"switches\":" + std::to_string(switches) + ",\"nontrivial\":" + std::to_string(nontrivial) +
                        ",\"preempted_runs\":" + std::to_string(sched_nt) + ",\"ignored\":" + std::to_string(ignored);
        o += ",\"faults\":{";
        bool first = true;
        for (int s = 0; s < F_NSITES; s++)
            if (q[s] || h[s]) {
                o += (first ? "" : ",") + json_str(kSiteName[s]) + ":{\"queries\":" + std::to_string(q[s]) +
                     ",\"injected\":" + std::to_string(h[s]) + ",\"runs\":" + std::to_string(hr[s]) + "}";
                first = false;
            }
        o += "},\"probes\":{";
        first = true;
        for (auto& e : probes) {
            o += (first ? "" : ",") + json_str(e.first) + ":{\"hits\":" + std::to_string(e.second.first) +
                 ",\"runs\":" + std::to_string(e.second.second) + "}";
            first = false;
        }
        o += "},\"violations\":[";
        for (size_t i = 0; i < viols.size(); i++)
            o += (i ? "," : "") + viols[i];
        o += "],\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++)
            o += (i ? "," : "") + samples[i];
        o += "]}";
        printf("SUMMARY %s\n", o.c_str());
        done(0);
    }
    if (mode == "one") {
        const Scenario* sc = find_scen(arg(argc, argv, "--scen", ""));
        if (!sc)
            done(3);
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        g_verbose = *arg(argc, argv, "--verbose", "");
        Result r = run_one(sc, seed, nullptr, nullptr);
        printf("RESULT {\"bad\":%s,\"class\":%s,\"msg\":%s,\"hash\":\"%llu\",\"steps\":%llu}\n", r.bad ? "true" : "false",
               json_str(r.cls).c_str(), json_str(r.msg).c_str(), (unsigned long long)r.hash,
               (unsigned long long)R->steps);
        const char* save = arg(argc, argv, "--save", "");
        if (*save && r.bad) {
            Replay rp;
            rp.property = arg(argc, argv, "--property", "?");
            rp.build = arg(argc, argv, "--build", "?");
            rp.scenario = sc->name;
            rp.cls = r.cls;
            rp.msg = r.msg;
            rp.seed = seed;
            rp.hash = r.hash;
            grab(rp.prog, rp.tape);
            save_replay(save, rp);
        }
        done(0);
    }
    if (mode == "replay" || mode == "minimize") {
        if (argc < 3)
            done(2);
        Replay rp;
        std::string path = argv[2];
        if (path[0] != '/') {
            printf("ERROR replay paths must be absolute\n");
            done(3);
        }
        if (!load_replay(path.c_str(), rp)) {
            printf("ERROR cannot read %s\n", path.c_str());
            done(3);
        }
        const Scenario* sc = find_scen(rp.scenario.c_str());
        if (!sc) {
            printf("ERROR unknown scenario %s\n", rp.scenario.c_str());
            done(3);
        }
        if (mode == "replay") {
            g_verbose = *arg(argc, argv, "--verbose", "");
            Result r = run_one(sc, rp.seed, &rp.prog, &rp.tape);
            printf("RESULT {\"bad\":%s,\"class\":%s,\"msg\":%s,\"hash\":\"%llu\",\"steps\":%llu,\"want_class\":%s,\"want_hash\":\"%llu\"}\n",
                   r.bad ? "true" : "false", json_str(r.cls).c_str(), json_str(r.msg).c_str(),
                   (unsigned long long)r.hash, (unsigned long long)R->steps, json_str(rp.cls).c_str(),
                   (unsigned long long)rp.hash);
            done(0);
        }
        Minimizer m;
        m.sc = sc;
        m.cls = rp.cls;
        m.best = rp;
        m.deadline = now_s() + atof(arg(argc, argv, "--cap", "40"));
        if (!m.try_exact(rp.prog, rp.tape)) {
            printf("ERROR the recorded run does not fail again\n");
            done(4);
        }
        size_t o0 = rp.prog.ops.size(), s0 = rp.tape.sw.size(), f0 = rp.tape.faults.size();
        if (rp.cls != "hang")
            m.run();
        // The final tapes are those of an execution that did fail; run it once more to settle hash.
        {
            Result r = run_one(sc, m.best.seed, &m.best.prog, &m.best.tape);
            if (!r.bad || r.cls != rp.cls) {
                printf("ERROR the minimised run does not fail\n");
                done(4);
            }
            m.best.hash = r.hash;
            m.best.msg = r.msg;
        }
        const char* outp = arg(argc, argv, "--out", path.c_str());
        save_replay(outp, m.best);
        printf("MINIMIZED ops %zu->%zu switches %zu->%zu faults %zu->%zu tries %llu\n", o0, m.best.prog.ops.size(), s0,
               m.best.tape.sw.size(), f0, m.best.tape.faults.size(), (unsigned long long)m.tries);
        done(0);
    }
    done(2);
    return 2;
}
