// C08: ke::Mutex: exclusion, and ownership assertions that are exact.
//
// Threads hold mutexes across operations, taking them with lock(), try_lock(), the std:: guards,
// std::lock and condition_variable_any. What the mutex protects is plain memory watched by the
// race detector. Owners assert their ownership at any time; in half of the programs non-owners do,
// too, and must be caught.
#include "common.h"

#include <chrono>
#include <condition_variable>
#include <mutex>

#include <amtl/am-mutex.h>

using namespace sim;

namespace scen_mutex {

const int kM = 3;
const int kMaxT = 5;

struct Model {
    Oint holder[kM]; // thread, or -1
    Oi64 attempts[kM];
    Oint inside[kM]; // threads in a call on it
    Oi64 count[kM];
    Oi64 per[kMaxT + 1][kM];
    Obool probing; // non-owners assert, too
};
ORACLE Model M;

struct Guarded {
    ke::Mutex m;
    std::condition_variable_any cv;
    int64_t value = 0;
    int64_t last = -1;
};
ORACLE Guarded* g[kM];

struct Call {
    int i;
    explicit Call(int i) : i(i) {
        M.attempts[i]++;
        M.inside[i]++;
    }
    ~Call() {
        M.inside[i]--;
    }
};

void got(int i, const char* how) {
    int me = self();
    SIM_EXPECT(M.holder[i] == -1, "exclusion", "%s on mutex %d succeeded while thread %d holds it", how, i,
               (int)M.holder[i]);
    M.holder[i] = me;
}
void letgo(int i) {
    M.holder[i] = -1;
}

// A claim of ownership must hold exactly if it is true.
void claim(int i) {
    int me = self();
    if (M.holder[i] == me) {
        g[i]->m.AssertCurrentThreadOwns();
        return;
    }
#ifndef NDEBUG
    if (M.probing) {
        jmp_buf env;
        volatile bool caught = false;
        if (setjmp(env) == 0) {
            assert_arm(&env);
            g[i]->m.AssertCurrentThreadOwns();
            assert_disarm();
        } else {
            caught = true;
        }
        SIM_EXPECT(caught, "ownership", "thread %d does not own mutex %d, but AssertCurrentThreadOwns() accepted it", me,
                   i);
        probe("non-owner-caught");
    }
#else
    g[i]->m.AssertCurrentThreadOwns(); // does nothing
#endif
}

void work(int i) {
    int me = self();
    claim(i);
    int64_t v = g[i]->value;
    if (v & 1)
        point();
    g[i]->value = v + 1;
    g[i]->last = me;
    M.count[i]++;
    claim(i);
    SIM_EXPECT(g[i]->last == me, "exclusion", "somebody else was in the critical section");
}

bool holds_any(int me, int from) {
    for (int i = from; i < kM; i++)
        if (M.holder[i] == me)
            return true;
    return false;
}

void lock(int i) {
    {
        Call c(i);
        g[i]->m.lock();
        got(i, "lock()");
    }
    claim(i);
}
void unlock(int i) {
    claim(i);
    letgo(i);
    {
        Call c(i);
        g[i]->m.unlock();
    }
    if (M.holder[i] != self())
        claim(i);
}

enum { LOCK, UNLOCK, TRY, WORK, CLAIM, GUARD, UNIQUE, BOTH, WAIT, NOTIFY, LOCK2, UNLOCK2, CLAIM2, NOPS };

void body(int t, const Op& op) {
    int me = t + 1;
    if (!holds_any(me, 0))
        crash_point();
    int i = clampi(op.a, kM);
    bool mine = M.holder[i] == me;
    bool may_block = !holds_any(me, i); // locks are taken in index order
    switch (clampi(op.code, NOPS)) {
        case LOCK:
        case LOCK2:
            if (may_block)
                lock(i);
            break;
        case UNLOCK:
        case UNLOCK2:
            if (mine)
                unlock(i);
            break;
        case TRY:
            if (!mine) {
                bool quiet = M.holder[i] == -1 && M.inside[i] == 0;
                uint32_t h = thread_hits(F_TRYLOCK);
                int64_t a0 = M.attempts[i];
                bool ok;
                {
                    Call c(i);
                    ok = g[i]->m.try_lock();
                    if (ok)
                        got(i, "try_lock()");
                }
                quiet = quiet && M.attempts[i] == a0 + 1 && thread_hits(F_TRYLOCK) == h;
                SIM_EXPECT(ok || !quiet, "progress", "try_lock() of a free mutex failed");
                if (ok)
                    probe("try-ok");
                claim(i);
                if (ok)
                    work(i);
            }
            break;
        case WORK:
            if (mine)
                work(i);
            break;
        case CLAIM:
        case CLAIM2:
            claim(i);
            break;
        case GUARD:
            if (may_block) {
                Call c(i);
                {
                    std::lock_guard<ke::Mutex> l(g[i]->m);
                    got(i, "lock_guard");
                    work(i);
                    letgo(i);
                }
                claim(i);
            }
            break;
        case UNIQUE:
            if (may_block) {
                Call c(i);
                std::unique_lock<ke::Mutex> l(g[i]->m, std::defer_lock);
                if (!(op.b & 1)) {
                    l.lock();
                    got(i, "unique_lock");
                } else if (l.try_lock()) {
                    got(i, "unique_lock try");
                }
                if (l.owns_lock()) {
                    work(i);
                    letgo(i);
                    l.unlock();
                    claim(i);
                    l.lock();
                    got(i, "unique_lock again");
                    work(i);
                    letgo(i);
                }
            }
            break;
        case BOTH: {
            int j = (i + 1) % kM;
            if (!holds_any(me, 0)) {
                Call c(i), d(j);
                {
                    std::scoped_lock<ke::Mutex, ke::Mutex> l(g[i]->m, g[j]->m);
                    got(i, "scoped_lock");
                    got(j, "scoped_lock");
                    work(i);
                    work(j);
                    letgo(i);
                    letgo(j);
                }
                probe("scoped-lock");
            }
            break;
        }
        case WAIT:
            if (!holds_any(me, 0)) {
                Call c(i);
                std::unique_lock<ke::Mutex> l(g[i]->m);
                got(i, "unique_lock");
                work(i);
                letgo(i);
                g[i]->cv.wait_for(l, std::chrono::microseconds(1 + (op.b & 31)));
                got(i, "wait");
                work(i);
                letgo(i);
                probe("cv-wait");
            }
            break;
        case NOTIFY:
            g[i]->cv.notify_all();
            break;
    }
}
void end(int t) {
    int me = t + 1;
    for (int i = kM - 1; i >= 0; i--)
        if (M.holder[i] == me)
            unlock(i);
}

void run(const Program& p) {
    size_t base = live_blocks();
    enable_fault(F_CRASH);
    enable_fault(F_TRYLOCK);
    enable_fault(F_CONDSPUR);
    int nt = 1 + clampi(p.p(1), 4);
    M.probing = p.p(2) & 1;
    for (int i = 0; i < kM; i++) {
        M.holder[i] = -1;
        g[i] = new Guarded;
        // A non-owner's claim reads the owner while the owner changes it; only the outcome counts.
        if (M.probing)
            race_exempt(&g[i]->m, sizeof(g[i]->m));
    }
    claim(0);
    run_threads(p, nt, body, nullptr, end);
    set_no_preempt(true);
    disable_faults();
    bool dead = false;
    for (int t = 1; t <= nt; t++)
        dead |= crashed(t);
    for (int i = 0; i < kM; i++) {
        SIM_EXPECT(M.holder[i] == -1, "harness", "mutex %d is still held", i);
        {
            uint32_t n = 0;
            Call c(i);
            while (!g[i]->m.try_lock())
                SIM_EXPECT(++n < 3, "progress", "a free mutex cannot be taken");
            got(i, "try_lock()");
        }
        SIM_EXPECT(g[i]->value == M.count[i], "exclusion", "%ld updates, but the value is %ld", (long)M.count[i],
                   (long)g[i]->value);
        unlock(i);
    }
    if (dead)
        return;
    for (int i = 0; i < kM; i++)
        delete g[i];
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked", live_blocks() - base);
}

void gen(Rng& r, Program& p) {
    int nt = (int)r.range(2, 4);
    p.params = {(int64_t)r.below(3), nt - 1, (int64_t)r.below(2)};
    int nm = r.chance(0.6) ? 1 : kM;
    int per = (int)r.range(2, 8);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            int c = r.chance(0.6) ? (int)r.below(5) : (int)r.below(NOPS);
            p.ops.push_back(mkop(t, c, (int64_t)r.below(nm), (int64_t)r.below(64)));
        }
}

SIM_SCENARIO(c08, "mutex", gen, run);

} // namespace
