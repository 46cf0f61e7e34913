// C06, C07: thread-local values: isolation, concurrent first use, slot exhaustion.
//
// Threads set, read, compare and pre-allocate a few ThreadLocal objects, all of them untouched at
// the start, so that first uses collide; some programs also destroy and rebuild them while threads
// that used the old ones live on. In C07 the simulated system runs out of slots or refuses stores.
// Oracle: a table of what each thread set last.
#include "common.h"

#include <mutex>

#include <amtl/am-threadlocal.h>

using namespace sim;

namespace scen_threadlocal {

const int kObjs = 3;
const int kMaxT = 5;

struct Model {
    Ov<uintptr_t> val[kMaxT + 1][kObjs];
    Obool exists[kObjs];
    Obool has_slot[kObjs];  // some allocate() or set() has returned
    Oint users[kObjs];      // threads inside an operation on it
    Ou64 fail_base[kObjs];
    Obool in_set[kMaxT + 1];
    Ou64 set_base[kMaxT + 1];
    Oint set_obj[kMaxT + 1];
    Obool faulty;
    Obool locked;
    Oint base_keys;
};
ORACLE Model M;
ORACLE void* g_obj[kObjs];
ORACLE std::mutex* g_lock;

enum E { E_NONE = 0, E_A = 3, E_B = -7 };

template <typename T>
T value_of(int64_t n);
template <>
uintptr_t value_of<uintptr_t>(int64_t n) {
    static const uintptr_t v[] = {0, 1, 2, ~uintptr_t(0), uintptr_t(1) << 63, 0xffffffffu, 0x100000000ull, 77};
    return v[n & 7] ^ (n >= 16 ? (uintptr_t)n << 8 : 0);
}
template <>
int* value_of<int*>(int64_t n) {
    return (n & 7) == 0 ? nullptr : (int*)(uintptr_t)(n * 8);
}
template <>
int32_t value_of<int32_t>(int64_t n) {
    static const int32_t v[] = {0, 1, -1, INT32_MIN, INT32_MAX, 5, -5, 0x10000};
    return v[n & 7];
}
template <>
uint8_t value_of<uint8_t>(int64_t n) {
    return (uint8_t)n;
}

void enter(int i) {
    if (M.users[i]++ == 0)
        M.fail_base[i] = key_refusals();
}
void leave(int i) {
    M.users[i]--;
}

template <typename T>
struct World {
    typedef ke::ThreadLocal<T> TL;
    static TL& obj(int i) {
        return *(TL*)g_obj[i];
    }
    static void expect(int me, int i, T got, const char* how) {
        T want = (T)(uintptr_t)M.val[me][i];
        SIM_EXPECT(got == want, "isolation", "object %d: %s on thread %d gave %llx, it last set %llx", i, how, me,
                   (unsigned long long)(uintptr_t)got, (unsigned long long)(uintptr_t)want);
    }
    static void set(int me, int i, T v, bool assign) {
        M.in_set[me] = true;
        M.set_base[me] = key_refusals();
        M.set_obj[me] = i;
        if (assign)
            obj(i) = v;
        else
            obj(i).set(v);
        M.in_set[me] = false;
        M.has_slot[i] = true;
        M.val[me][i] = (uintptr_t)v;
        expect(me, i, obj(i).get(), "get() after set()");
    }
    static void make(int i) {
        g_obj[i] = new TL;
        M.exists[i] = true;
        M.has_slot[i] = false;
        for (auto& v : M.val)
            v[i] = (uintptr_t)T();
    }
    static void destroy(int i) {
        delete (TL*)g_obj[i];
        M.exists[i] = false;
    }
    enum { SET, ASSIGN, GET, GET2, OPS, ALLOC, REBUILD, SETGET, NOPS };

    static void body(int t, const Op& op) {
        if (t >= 0)
            crash_point();
        int me = t + 1;
        int i = clampi(op.a, kObjs);
        int code = clampi(op.code, NOPS);
        if (M.locked) {
            std::lock_guard<std::mutex> l(*g_lock);
            if (code == REBUILD) {
                if (M.users[i])
                    return;
                if (M.exists[i])
                    destroy(i);
                make(i);
                probe("rebuild");
                return;
            }
            if (!M.exists[i])
                return;
            enter(i);
        } else {
            enter(i);
        }
        switch (code) {
            case SET:
            case ASSIGN:
                set(me, i, value_of<T>(op.b), code == ASSIGN);
                break;
            case GET:
            case GET2:
                expect(me, i, obj(i).get(), "get()");
                break;
            case OPS: {
                const TL& o = obj(i);
                T want = (T)(uintptr_t)M.val[me][i];
                expect(me, i, *o, "operator*");
                expect(me, i, o.operator->(), "operator->");
                T other = value_of<T>(op.b);
                SIM_EXPECT(!o == !want, "isolation", "operator! disagrees with the value");
                SIM_EXPECT((o == other) == (want == other), "isolation", "operator== disagrees with the value");
                SIM_EXPECT((o != other) == (want != other), "isolation", "operator!= disagrees with the value");
                break;
            }
            case ALLOC: {
                bool had = M.has_slot[i];
                bool ok = obj(i).allocate();
                if (ok) {
                    M.has_slot[i] = true;
                } else {
                    SIM_EXPECT(!had, "alloc-result", "allocate() of object %d failed although it has a slot", i);
                    SIM_EXPECT(key_refusals() > M.fail_base[i], "alloc-result",
                               "allocate() of object %d failed although the system refused nothing", i);
                    probe("alloc-refused");
                }
                expect(me, i, obj(i).get(), "get() after allocate()");
                break;
            }
            case SETGET:
                for (int k = 0; k < 3; k++) {
                    set(me, i, value_of<T>(op.b + k), k & 1);
                    point();
                    expect(me, i, obj(i).get(), "get()");
                }
                break;
        }
        if (M.locked) {
            std::lock_guard<std::mutex> l(*g_lock);
            leave(i);
        } else {
            leave(i);
        }
    }
    static void end(int t) {
        if (M.locked)
            return;
        for (int i = 0; i < kObjs; i++)
            expect(t + 1, i, obj(i).get(), "last get()");
    }

    static void on_death(const char* why) {
        int me = self();
        SIM_EXPECT(!strcmp(why, "abort"), "wrong-death", "the process ended by %s, not abort()", why);
        SIM_EXPECT(M.in_set[me], "wrong-death", "abort() outside set()");
        int i = M.set_obj[me];
        SIM_EXPECT(key_refusals() > M.set_base[me] || key_refusals() > M.fail_base[i], "wrong-death",
                   "abort() in set() although the system refused nothing");
        probe("abort");
    }

    static void run(const Program& p, bool faulty) {
        M.faulty = faulty;
        M.locked = p.p(3) & 1;
        M.base_keys = keys_live();
        size_t base = live_blocks();
        keys_policy(clampi(p.p(4), 3));
        int nt = 1 + clampi(p.p(1), 4);
        on_abort(on_death);
        if (faulty) {
            enable_fault(F_KEYCREATE);
            enable_fault(F_SETSPECIFIC);
            keys_limit(M.base_keys + clampi(p.p(5), 5));
        }
        g_lock = new std::mutex;
        for (int i = 0; i < kObjs; i++)
            make(i);
        // Main may be a user, too.
        if (p.p(6) & 1)
            body(-1, mkop(-1, p.p(6) & 2 ? ALLOC : GET, p.p(6) >> 2 & 3, 0));
        run_threads(p, nt, body, nullptr, end);
        set_no_preempt(true);
        disable_faults();
        keys_limit(M.base_keys + 16);
        bool dead = false;
        for (int t = 1; t <= nt; t++)
            dead |= crashed(t);
        // Slots: one per object that has been used, no matter how many threads raced for it.
        int want = 0;
        for (int i = 0; i < kObjs; i++)
            if (M.exists[i])
                want += M.has_slot[i];
        SIM_EXPECT(keys_live() - M.base_keys >= want || dead, "slots", "%d slots in use for %d objects that need one",
                   keys_live() - M.base_keys, want);
        SIM_EXPECT(keys_live() - M.base_keys <= kObjs, "slots", "%d slots in use for %d objects",
                   keys_live() - M.base_keys, kObjs);
        // Now that the system has slots again, everything works, whatever failed before.
        for (int i = 0; i < kObjs; i++) {
            if (!M.exists[i])
                continue;
            enter(i);
            SIM_EXPECT(obj(i).allocate(), "alloc-result", "allocate() failed with slots available");
            expect(0, i, obj(i).get(), "get()");
            set(0, i, value_of<T>(5), false);
            leave(i);
        }
        // A thread that comes late starts from nothing.
        SIM_EXPECT(keys_live() - M.base_keys == kObjs || M.locked, "slots", "%d slots in use for %d objects",
                   keys_live() - M.base_keys, kObjs);
        if (dead) {
            probe("crash");
            return; // the dead threads' accesses are not ordered before a destruction
        }
        for (int i = 0; i < kObjs; i++)
            if (M.exists[i])
                destroy(i);
        SIM_EXPECT(keys_live() == M.base_keys, "slots", "%d slots leaked", keys_live() - M.base_keys);
        delete g_lock;
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked", live_blocks() - base);
    }
};

void gen(Rng& r, Program& p, bool faulty) {
    int nt = (int)r.range(2, 4);
    int nobj = r.chance(0.6) ? 1 : kObjs;
    bool locked = r.chance(0.35);
    p.params = {(int64_t)r.below(3), nt - 1, (int64_t)r.below(4), locked, (int64_t)r.below(3),
                (int64_t)r.below(5), r.chance(0.2) ? (int64_t)r.below(16) : 0};
    int per = (int)r.range(1, 6);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            int c = (int)r.below(8);
            if (faulty && r.chance(0.4))
                c = 5;
            p.ops.push_back(mkop(t, c, (int64_t)r.below(nobj), (int64_t)r.below(64)));
        }
}
void go(const Program& p, bool faulty) {
    enable_fault(F_CRASH);
    enable_fault(F_CASWEAK);
    switch (clampi(p.p(2), 4)) {
        case 0:
            World<uintptr_t>::run(p, faulty);
            break;
        case 1:
            World<int*>::run(p, faulty);
            break;
        case 2:
            World<int32_t>::run(p, faulty);
            break;
        default:
            World<uint8_t>::run(p, faulty);
    }
}
void gen6(Rng& r, Program& p) {
    gen(r, p, false);
}
void run6(const Program& p) {
    go(p, false);
}
void gen7(Rng& r, Program& p) {
    gen(r, p, true);
}
void run7(const Program& p) {
    go(p, true);
}

SIM_SCENARIO(c06, "threadlocal", gen6, run6);
SIM_SCENARIO(c07, "threadlocal_exhaust", gen7, run7);

} // namespace
