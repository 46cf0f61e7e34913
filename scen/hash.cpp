// C10, C11: HashTable, HashMap, HashSet against a map, with allocations that fail.
//
// Every thread owns a container (of one of the three kinds) and takes it through a random history;
// all draw on one memory budget, so who is refused depends on the schedule as well as on injected
// faults. A further container is built before the threads start and looked up by all of them.
#include "item.h"

#include <mutex>

#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

using namespace sim;
using namespace elems;

namespace scen_hash {

const int kMaxT = 4;
const uint32_t kInvGolden = 0x144CBC89;  // kInvGolden * 0x9E3779B9 == 1
static_assert(kInvGolden * 0x9E3779B9u == 1, "");

struct Model {
    Oint hash_mode;
    Oint nkeys;
    Oint scale;
};
ORACLE Model M;
typedef std::map<int64_t, int64_t> Ref;
ORACLE Ref* g_ref[kMaxT + 1];
ORACLE void* g_con[kMaxT + 1];
ORACLE Oint g_pool[kMaxT + 1];
ORACLE Ou64 g_floor[kMaxT + 1];  // memory use right after init()
ORACLE Ou64 g_entry[kMaxT + 1];  // of that, for each element there is room for
ORACLE Ou64 g_peak[kMaxT + 1];   // the most elements it ever held

uint32_t hash_of(int64_t k) {
    uint32_t u = (uint32_t)k;
    switch ((int)M.hash_mode) {
        case 0:
            return u;
        case 1:
            return 12345;
        case 2:
            return u % 3;
        case 3:  // final hashes 0, 1, 2, 3, the first two of which mean something to the table
            return (u % 4) * kInvGolden;
        case 4:
            return (u ^ (u >> 3)) * 0x85ebca6b;
        case 5:  // all start in the last slots of the table
            return (0xffffffffu - (u % 5)) * kInvGolden;
        case 6:  // equal low bits, different hashes
            return (u * 4096) * kInvGolden;
    }
    return ke::HashInteger<4>(u);
}
struct HP {
    static uint32_t hash(int64_t k) {
        return hash_of(k);
    }
    static uint32_t hash(const UItem& e) {
        return hash_of(e.get());
    }
    static bool matches(int64_t k, const UItem& e) {
        return k == e.get();
    }
    static bool matches(const UItem& k, const UItem& e) {
        return k.get() == e.get();
    }
};

template <typename C, typename I>
static bool add_unset(C& c, I& i) {
    Fragile f;
    return c.add(i);
}

struct MapA {
    static const int kElems = 2;
    typedef ke::HashMap<UItem, UItem, HP, Pol> C;
    typedef C::Insert Insert;
    static const bool kHasValue = true;
    template <typename P>
    static int64_t key(const P& p) {
        return p.key.get();
    }
    template <typename P>
    static int64_t val(const P& p) {
        return p.value.get();
    }
    template <typename P>
    static void setval(P& p, int64_t v) {
        p.value.set(v);
    }
    static bool add(C& c, Insert& i, int64_t k, int64_t v, int how) {
        switch (how) {
            case 0: {
                UItem ek(k), ev(v);
                Fragile f;
                bool ok = c.add(i, ek, ev);
                SIM_EXPECT(ek.get() == k && ev.get() == v, "map", "add() changed its arguments");
                return ok;
            }
            case 1: {
                NoCopies none("a key or value moved in, or to a larger table, was");
                Fragile f;
                return c.add(i, UItem(k), UItem(v));
            }
            case 2: {
                UItem ek(k);
                bool ok;
                {
                    Fragile f;
                    ok = c.add(i, ek);
                }
                SIM_EXPECT(ek.get() == k, "map", "add() changed its argument");
                if (!ok)
                    return false;
                SIM_EXPECT(i->value.get() == kUnset, "map", "add(key) did not make a default value");
                i->value.set(v);
                return true;
            }
            default:
                if (!add_unset(c, i))
                    return false;
                i->key = UItem(k);
                i->value = UItem(v);
                return true;
        }
    }
    static bool density(C&) {
        return true;
    }
    static C::iterator iter(C& c) {
        return c.iter();
    }
};
struct SetA {
    static const int kElems = 1;
    typedef ke::HashSet<UItem, HP, Pol> C;
    typedef C::Insert Insert;
    static const bool kHasValue = false;
    template <typename P>
    static int64_t key(const P& p) {
        return p.get();
    }
    template <typename P>
    static int64_t val(const P& p) {
        return 0;
    }
    template <typename P>
    static void setval(P& p, int64_t v) {}
    static bool add(C& c, Insert& i, int64_t k, int64_t v, int how) {
        switch (how) {
            case 0:
            case 2: {
                UItem ek(k);
                Fragile f;
                bool ok = c.add(i, ek);
                SIM_EXPECT(ek.get() == k, "map", "add() changed its argument");
                return ok;
            }
            case 1: {
                NoCopies none("a key or value moved in, or to a larger table, was");
                Fragile f;
                return c.add(i, UItem(k));
            }
            default:
                if (!add_unset(c, i))
                    return false;
                *i = UItem(k);
                return true;
        }
    }
    static bool density(C&) {
        return true;
    }
    static C::iterator iter(C& c) {
        return c.iter();
    }
};
struct Pair {
    UItem k, v;
    Pair() {}
    Pair(int64_t a, int64_t b) : k(a), v(b) {}
};
struct TP {
    typedef Pair Payload;
    template <typename L>
    static uint32_t hash(const L& k) {
        return HP::hash(k);
    }
    template <typename L>
    static bool matches(const L& k, const Pair& p) {
        return HP::matches(k, p.k);
    }
};
struct TabA {
    static const int kElems = 2;
    typedef ke::HashTable<TP, Pol> C;
    typedef C::Insert Insert;
    static const bool kHasValue = true;
    static int64_t key(const Pair& p) {
        return p.k.get();
    }
    static int64_t val(const Pair& p) {
        return p.v.get();
    }
    static void setval(Pair& p, int64_t v) {
        p.v.set(v);
    }
    static bool add(C& c, Insert& i, int64_t k, int64_t v, int how) {
        switch (how) {
            case 0:
            case 2: {
                Pair p(k, v);
                Fragile f;
                bool ok = c.add(i, p);
                SIM_EXPECT(p.k.get() == k && p.v.get() == v, "map", "add() changed its argument");
                return ok;
            }
            case 1: {
                NoCopies none("a key or value moved in, or to a larger table, was");
                Fragile f;
                return c.add(i, Pair(k, v));
            }
            default:
                if (!add_unset(c, i))
                    return false;
                i->k = UItem(k);
                i->v = UItem(v);
                return true;
        }
    }
    static bool density(C& c) {
        return c.checkDensity();
    }
    static C::iterator iter(C& c) {
        return C::iterator(&c);
    }
};

template <typename A>
struct World {
    typedef typename A::C C;
    static C& con(int s) {
        return *(C*)g_con[s];
    }

    static void check_size(int s) {
        size_t n = con(s).elements(), want;
        {
            Quiet q;
            want = g_ref[s]->size();
        }
        SIM_EXPECT(n == want, "map", "elements() is %zu, not %zu", n, want);
        if (n > g_peak[s])
            g_peak[s] = n;
    }
    static void check_memory(int s) {
        size_t n = con(s).estimateMemoryUse();
        SIM_EXPECT(n == R.bytes[g_pool[s]], "memory-use", "estimateMemoryUse() is %zu, the policy lent %llu bytes", n,
                   (unsigned long long)R.bytes[g_pool[s]]);
        SIM_EXPECT(n >= g_floor[s], "memory-use", "the container shrank to %zu bytes, below what init() reserved", n);
        // It grows when three quarters of its slots have been used, by a factor of two, and shrinks
        // again if less than a quarter is in use by then: 8 slots for each element, at most.
        uint64_t most = 4 * g_floor[s] + 16 * g_peak[s] * g_entry[s];
        SIM_EXPECT(n <= most, "memory-use", "%zu bytes, for a container that never held more than %llu elements", n,
                   (unsigned long long)g_peak[s]);
        SIM_EXPECT(con(s).allocPolicy().pool() == g_pool[s], "policy", "allocPolicy() is %d, not %d",
                   con(s).allocPolicy().pool(), (int)g_pool[s]);
        const C& c = con(s);
        SIM_EXPECT(c.allocPolicy().pool() == g_pool[s], "policy", "allocPolicy() const is %d, not %d",
                   c.allocPolicy().pool(), (int)g_pool[s]);
    }
    template <typename P>
    static void check_payload(int s, const P& p, int64_t k, const char* how) {
        int64_t gk = A::key(p), gv = A::val(p), want;
        {
            Quiet q;
            want = (*g_ref[s])[k];
        }
        SIM_EXPECT(gk == k, "map", "%s of key %lld gives key %lld", how, (long long)k, (long long)gk);
        if (A::kHasValue)
            SIM_EXPECT(gv == want, "map", "%s of key %lld gives value %lld, not %lld", how, (long long)k, (long long)gv,
                       (long long)want);
    }
    static bool in_ref(int s, int64_t k) {
        Quiet q;
        return g_ref[s]->count(k) != 0;
    }
    static void find(int s, int64_t k, bool by_elem) {
        typename C::Result r = by_elem ? con(s).find(UItem(k)) : con(s).find(k);
        bool want = in_ref(s, k);
        SIM_EXPECT(r.found() == want, "map", "find(%lld) says %sfound", (long long)k, want ? "not " : "");
        if (want)
            check_payload(s, *r, k, "find");
        if constexpr (!A::kHasValue)
            SIM_EXPECT(con(s).has(k) == want, "map", "has(%lld) says %d", (long long)k, !want);
    }
    static void add(int s, int64_t k, int64_t v, int how) {
        try {
            try_add(s, k, v, how);
        } catch (Cancel&) {
            // Not added, then; whatever else was in there still is.
            SIM_EXPECT(in_ref(s, k) == con(s).find(k).found(), "map", "after constructing it failed, find(%lld) says %sfound",
                       (long long)k, in_ref(s, k) ? "not " : "");
            check_size(s);
            check_memory(s);
            probe("add-cancelled");
        }
    }
    static void try_add(int s, int64_t k, int64_t v, int how) {
        C& c = con(s);
        bool had = in_ref(s, k);
        int me = self();
        uint64_t ref0 = R.refused[me] + R.overflows[me];
        if constexpr (!A::kHasValue) {
            if (how >= 4) {
                if (how & 1) {
                    UItem e(k);
                    Fragile f;
                    c.add(e);
                    SIM_EXPECT(e.get() == k, "map", "add() changed its argument");
                } else {
                    NoCopies none("a key or value moved in, or to a larger table, was");
                    Fragile f;
                    c.add(UItem(k));
                }
                bool refused = R.refused[me] + R.overflows[me] != ref0;
                bool has = c.has(k);
                SIM_EXPECT(has || refused, "map", "add(%lld) did not add", (long long)k);
                SIM_EXPECT(has || !had, "map", "add(%lld) of a present key removed it", (long long)k);
                if (has) {
                    Quiet q;
                    (*g_ref[s])[k] = 0;
                }
                check_size(s);
                return;
            }
        }
        typename A::Insert i = (how & 1) ? c.findForAdd(k) : c.findForAdd(UItem(k));
        SIM_EXPECT(i.found() == had, "map", "findForAdd(%lld) says %sfound", (long long)k, had ? "not " : "");
        if (had) {
            check_payload(s, *i, k, "findForAdd");
            A::setval(*i, v);
            Quiet q;
            (*g_ref[s])[k] = v;
        } else if (how == 9) {
            // looked, did not add
        } else if (A::add(c, i, k, v, how & 3)) {
            {
                Quiet q;
                (*g_ref[s])[k] = v;
            }
            SIM_EXPECT(i.found(), "map", "the Insert is not valid after add()");
            check_payload(s, *i, k, "Insert");
        } else {
            SIM_EXPECT(R.refused[me] + R.overflows[me] != ref0, "spurious-failure",
                       "add(%lld) failed although the policy refused nothing", (long long)k);
            probe("add-failed");
        }
        check_size(s);
    }
    static void remove(int s, int64_t k, int how) {
        C& c = con(s);
        if (how == 0) {
            c.removeIfExists(k);
        } else if (how == 1) {
            c.removeIfExists(UItem(k));
        } else {
            typename C::Result r = c.find(k);
            bool want = in_ref(s, k);
            SIM_EXPECT(r.found() == want, "map", "find(%lld) says %sfound", (long long)k, want ? "not " : "");
            if (!r.found())
                return;
            c.remove(r);
        }
        {
            Quiet q;
            g_ref[s]->erase(k);
        }
        check_size(s);
    }
    // Visits everything once; erases what satisfies (key % mod == rem).
    static void iterate(int s, int mod, int rem) {
        C& c = con(s);
        Ref* seen;
        Ref want;
        {
            Quiet q;
            seen = new Ref;
        }
        size_t n = 0;
        for (auto it = A::iter(c); !it.empty(); it.next()) {
            int64_t k = A::key(*it);
            bool fresh, known = in_ref(s, k);
            {
                Quiet q;
                fresh = seen->insert({k, 0}).second;
            }
            SIM_EXPECT(fresh, "map", "iteration gives key %lld twice", (long long)k);
            SIM_EXPECT(known, "map", "iteration gives key %lld, which is not there", (long long)k);
            check_payload(s, *it, k, "iteration");
            n++;
            if (mod && clampi(k, mod) == rem) {
                it.erase();
                Quiet q;
                g_ref[s]->erase(k);
                (*seen)[k] = 1;
                probe("iter-erase");
            }
        }
        size_t left = 0;
        {
            Quiet q;
            for (auto& e : *g_ref[s])
                if (!seen->count(e.first))
                    left++;
            delete seen;
        }
        SIM_EXPECT(!left, "map", "iteration missed %zu of the elements", left);
        check_size(s);
    }
    static void full(int s) {
        for (int k = 0; k < M.nkeys; k++)
            find(s, k, k & 1);
        find(s, M.nkeys + 100, false);
        iterate(s, 0, 0);
    }

    static bool init(int s, uint64_t cap) {
        int me = self();
        uint64_t r0 = R.refused[me];
        bool ok = cap == 1 ? con(s).init() : con(s).init((size_t)cap);
        SIM_EXPECT(ok || R.refused[me] != r0, "spurious-failure", "init(%llu) failed although the policy refused nothing",
                   (unsigned long long)cap);
        SIM_EXPECT(ok || R.bytes[g_pool[s]] == 0, "policy", "a failed init() kept memory");
        if (!ok)
            probe("init-failed");
        g_floor[s] = ok ? (uint64_t)con(s).estimateMemoryUse() : 0;
        g_entry[s] = g_floor[s] / (cap < 16 ? 16 : cap);
        g_peak[s] = 0;
        return ok;
    }
    static void make(int s, uint64_t cap, int huge) {
        int pool = R.npools++;
        g_pool[s] = pool;
        C* c = new C(Pol(pool));
        g_con[s] = c;
        {
            Quiet q;
            delete g_ref[s];
            g_ref[s] = new Ref;
        }
        if (huge) {
            int me = self();
            uint64_t o0 = R.overflows[me], a0 = R.allocs[me], r0 = R.refused[me];
            bool ok = c->init(size_t(1) << huge);
            SIM_EXPECT(!ok, "overflow", "init(1 << %d) claims success", huge);
            SIM_EXPECT(R.overflows[me] == o0 + 1, "overflow", "init(1 << %d) reported %llu overflows", huge,
                       (unsigned long long)(R.overflows[me] - o0));
            SIM_EXPECT(R.allocs[me] == a0 && R.refused[me] == r0, "overflow", "init(1 << %d) asked for memory", huge);
            probe("huge-init");
        }
        if (!init(s, cap)) {
            if (cap & 32) {  // give it up: must be destructible
                delete c;
                g_con[s] = nullptr;
                return;
            }
            // Retry, as often as it takes.
            for (int n = 0; n < 3; n++)
                if (init(s, cap)) {
                    probe("init-retried");
                    check_memory(s);
                    return;
                }
            delete c;
            g_con[s] = nullptr;
            return;
        }
        check_memory(s);
    }
    static void destroy(int s) {
        if (!g_con[s])
            return;
        delete &con(s);
        g_con[s] = nullptr;
        SIM_EXPECT(R.bytes[g_pool[s]] == 0, "leak", "a destroyed container kept %llu bytes",
                   (unsigned long long)R.bytes[g_pool[s]]);
        Quiet q;
        g_ref[s]->clear();
    }

    enum { ADD, ADD2, ADD3, ADDN, FIND, REMOVE, REMOVE2, REMOVEN, ITER, ERASE, CLEAR, MOVE, REMAKE, SHARED, SHARED2, DENSITY,
           CHURN, NOPS };

    static void body(int t, const Op& op) {
        int s = t;
        int code = clampi(op.code, NOPS);
        int64_t k = clampi(op.a, M.nkeys);
        if (code == SHARED || code == SHARED2) {
            if (!g_con[kMaxT])
                return;
            for (int n = 0; n < 3; n++)
                find(kMaxT, clampi(op.a + n, M.nkeys), n == 1);
            check_size(kMaxT);
            probe("shared-lookup");
            return;
        }
        if (code == REMAKE) {
            destroy(s);
            static const uint64_t caps[] = {1, 0, 16, 32, 64, 128, 3, 16, 2, 5, 15, 256, 512, 1024, 2048, 8192};
            make(s, caps[M.scale > 1 ? op.b & 15 : op.b & 7], (op.c & 3) == 3 ? 27 + clampi(op.c >> 2, 37) : 0);
            return;
        }
        if (!g_con[s])
            return;
        switch (code) {
            case ADD:
            case ADD2:
            case ADD3:
                add(s, k, op.b & 0xffff, clampi(op.c, 10));
                break;
            case ADDN:
                for (int n = 0; n < M.scale * clampi(op.b, 140) + 1; n++)
                    add(s, clampi(op.a * M.scale + n * 3, M.nkeys), (op.b + n) & 0xffff, clampi(op.c + n, 4));
                break;
            case FIND:
                find(s, k, op.b & 1);
                break;
            case REMOVE:
            case REMOVE2:
                remove(s, k, clampi(op.b, 3));
                break;
            case REMOVEN:
                for (int n = 0; n < M.scale * clampi(op.b, 140) + 1; n++)
                    remove(s, clampi(op.a * M.scale + n, M.nkeys), clampi(op.c + n, 3));
                break;
            case ITER:
                iterate(s, 0, 0);
                break;
            case ERASE: {
                int mod = 1 + clampi(op.b, 4);
                iterate(s, mod, clampi(op.a, mod));
                iterate(s, 0, 0);
                break;
            }
            case CLEAR: {
                con(s).clear();
                {
                    Quiet q;
                    g_ref[s]->clear();
                }
                check_size(s);
                probe("clear");
                break;
            }
            case MOVE: {
                C* n = new C(std::move(con(s)));
                SIM_EXPECT(con(s).elements() == 0, "map", "a container moved from has elements");
                delete &con(s);
                g_con[s] = n;
                check_size(s);
                iterate(s, 0, 0);
                probe("move");
                break;
            }
            case DENSITY: {
                int me = self();
                uint64_t r0 = R.refused[me] + R.overflows[me];
                bool ok = A::density(con(s));
                SIM_EXPECT(ok || R.refused[me] + R.overflows[me] != r0, "spurious-failure",
                           "checkDensity() failed although the policy refused nothing");
                check_size(s);
                break;
            }
            case CHURN:
                // Tombstones without growth.
                for (int n = 0; n < clampi(op.b, 60) + 1; n++) {
                    add(s, clampi(op.a + n, M.nkeys), n, clampi(op.c, 4));
                    remove(s, clampi(op.a + n - clampi(op.c, 3), M.nkeys), clampi(n, 3));
                }
                break;
        }
        check_memory(s);
    }
    static void run(const Program& p) {
        int nt = 1 + clampi(p.p(1), 3);
        M.hash_mode = clampi(p.p(2), 8);
        static const int keys[] = {3, 10, 24, 60, 130, 400, 1100, 3000};
        M.nkeys = keys[clampi(p.p(3), 8)];
        M.scale = 1 + clampi(p.p(8), 12);
        reg_reset();
        for (auto& r : g_ref)
            r = nullptr;
        for (auto& c : g_con)
            c = nullptr;
        size_t base = live_blocks();
        size_t base_elems = live_elems();
        for (int s = 0; s < nt; s++)
            make(s, 1, 0);
        if (p.p(4) & 1) {
            make(kMaxT, 1, 0);
            if (g_con[kMaxT])
                for (int n = 0; n < M.nkeys && n < 30; n += 1 + clampi(p.p(5), 3))
                    add(kMaxT, n, n * 7, n & 3);
            if (g_con[kMaxT] && (p.p(4) & 2))
                for (int n = 0; n < M.nkeys && n < 30; n += 2 + clampi(p.p(5), 2))
                    remove(kMaxT, n, n % 3);
        }
        if (p.p(6))
            R.limit = R.total + (uint64_t)clampi(p.p(6), 60000) * (int)M.scale;
        enable_fault(F_POLICY);
        enable_fault(F_CANCEL);
        enable_fault(F_STALL);
        run_threads(p, nt, body);
        disable_faults();
        set_no_preempt(true);
        R.limit = ~0ull;
        size_t held = 0;
        for (int s = 0; s <= kMaxT; s++)
            if (g_con[s])
                held += con(s).elements();
        held *= A::kElems;
        SIM_EXPECT(live_elems() - base_elems == held, "leak", "%zu elements are alive, %zu of them in containers",
                   live_elems() - base_elems, held);
        for (int s = 0; s <= kMaxT; s++) {
            if (!g_con[s])
                continue;
            full(s);
            // Faults over: everything works again.
            if (s < nt)
                for (int k = 0; k < M.nkeys; k += 1 + M.nkeys / 8)
                    add(s, k, k, k & 3);
            check_memory(s);
            size_t n;
            {
                Quiet q;
                n = g_ref[s]->size();
            }
            (void)n;
            destroy(s);
        }
        SIM_EXPECT(live_elems() == base_elems, "leak", "%zu elements were never destroyed", live_elems() - base_elems);
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
    }
};

void run(const Program& p) {
    set_max_steps(20000000);
    switch (clampi(p.p(7), 3)) {
        case 0:
            World<MapA>::run(p);
            break;
        case 1:
            World<SetA>::run(p);
            break;
        case 2:
            World<TabA>::run(p);
            break;
    }
}
void gen(Rng& r, Program& p) {
    int nt = (int)r.below(3);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(8), (int64_t)r.below(5), (int64_t)r.below(4), (int64_t)r.below(3),
                r.chance(0.4) ? r.range(500, 30000) : 0, (int64_t)r.below(3)};
    bool slow = p.params[2] == 1 || p.params[2] == 2 || p.params[2] == 3 || p.params[2] == 5;
    if (slow && p.params[3] > 2)
        p.params[3] = 2;
    // Now and then, a large one.
    bool large = !slow && r.chance(0.05);
    p.params.push_back(large ? 3 + (int64_t)r.below(9) : 0);
    if (large) {
        p.params[1] = nt = (int)r.below(2);
        p.params[3] = 5 + (int64_t)r.below(3);
    }
    int maxops = r.chance(0.15) ? 40 : 12;
    uint64_t bulk = slow || r.chance(0.7) ? (r.chance(0.5) ? 60 : 8) : 140;
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(maxops);
        int focus = (int)r.below(17);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, r.chance(0.2) ? focus : (int)r.below(17), (int64_t)r.below(140), (int64_t)r.below(bulk),
                                 (int64_t)r.below(160)));
    }
}
SIM_SCENARIO(hash, "hash", gen, run);

// A table of entries so large that it reaches the size limit after one growth: the policy lends
// address space only.
}  // namespace scen_hash

#include <sys/mman.h>

namespace scen_hash_limit {

struct Token {
    Elem e;
    char pad[(1 << 25) + 64];
    explicit Token(int64_t v) : e(v) {}
    Token(Token&& o) : e(std::move(o.e)) {}
};
struct TP {
    typedef Token Payload;
    static uint32_t hash(int64_t k) {
        return ke::HashInteger<4>((uintptr_t)k);
    }
    static bool matches(int64_t k, const Token& t) {
        return t.e.get() == k;
    }
};
struct St {
    Ou64 used, refused, overflows;
    void* p[4];
    size_t n[4];
};
ORACLE St S;
struct BigPol {
    int id = 7;
    void reportOutOfMemory() {}
    void reportAllocationOverflow() {
        S.overflows++;
        probe("grow-overflow");
    }
    void* am_malloc(size_t n) {
        SIM_EXPECT(n && n < (1ull << 31), "overflow", "a request for %zu bytes reached the policy", n);
        if (fault(F_POLICY)) {
            S.refused++;
            return nullptr;
        }
        for (int i = 0; i < 4; i++)
            if (!S.p[i]) {
                void* p = mmap((void*)(0x200000000000 + ((uintptr_t)i << 36)), n, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
                if (p == MAP_FAILED)
                    violation("harness", "mmap");
                S.p[i] = p;
                S.n[i] = n;
                S.used++;
                return p;
            }
        violation("harness", "too many blocks");
    }
    void am_free(void* p) {
        if (!p)
            return;
        for (int i = 0; i < 4; i++)
            if (S.p[i] == p) {
                if (live_in(p, S.n[i]))
                    violation("leak", "memory holding live elements is freed");
                munmap(p, S.n[i]);
                S.p[i] = nullptr;
                S.used--;
                return;
            }
        violation("policy", "am_free of something that am_malloc did not return, or twice");
    }
};
typedef ke::HashTable<TP, BigPol> Table;

enum { ADD, ADD2, ADD3, REMOVE, FIND, CLEAR, NOPS };
ORACLE Table* T;
ORACLE std::set<int64_t>* g_keys;

static void body(int, const Op& op) {
    int64_t k = clampi(op.a, 60);
    bool had;
    size_t want;
    {
        Quiet q;
        had = g_keys->count(k);
    }
    switch (clampi(op.code, NOPS)) {
        case ADD:
        case ADD2:
        case ADD3: {
            Table::Insert i = T->findForAdd(k);
            SIM_EXPECT(i.found() == had, "map", "findForAdd is wrong about key %lld", (long long)k);
            if (had)
                break;
            uint64_t r0 = S.refused, o0 = S.overflows;
            bool ok = T->add(i, k);
            SIM_EXPECT(ok || S.refused != r0 || S.overflows != o0, "unreported-failure", "add failed for no reason");
            SIM_EXPECT(S.overflows - o0 <= 1 && (!ok || S.overflows == o0), "overflow", "overflow reported, add says %d", ok);
            if (ok) {
                SIM_EXPECT(i.found() && i->e.get() == k, "map", "the Insert is not valid after add()");
                Quiet q;
                g_keys->insert(k);
            }
            break;
        }
        case REMOVE:
            T->removeIfExists(k);
            {
                Quiet q;
                g_keys->erase(k);
            }
            break;
        case FIND: {
            Table::Result r = T->find(k);
            SIM_EXPECT(r.found() == had, "map", "find is wrong about key %lld", (long long)k);
            break;
        }
        case CLEAR:
            if (op.b % 16)
                break;
            T->clear();
            {
                Quiet q;
                g_keys->clear();
            }
            break;
    }
    {
        Quiet q;
        want = g_keys->size();
    }
    SIM_EXPECT(T->elements() == want, "map", "elements() is %zu, not %zu", T->elements(), want);
    SIM_EXPECT(T->estimateMemoryUse() < (1ull << 31), "overflow", "the table is larger than the limit");
}
void run(const Program& p) {
    reg_reset();
    memset((void*)&S, 0, sizeof(S));
    size_t base = live_blocks();
    {
        Quiet q;
        g_keys = new std::set<int64_t>;
    }
    T = new Table(BigPol());
    if (T->init(p.p(2) & 1 ? 32 : 16)) {
        enable_fault(F_POLICY);
        run_threads(p, 1, body);
        disable_faults();
        set_no_preempt(true);
        for (int k = 0; k < 60; k++)
            body(0, mkop(0, FIND, k));
        size_t n = 0;
        for (Table::iterator i(T); !i.empty(); i.next())
            n++;
        SIM_EXPECT(n == T->elements(), "map", "iteration gives %zu of %zu elements", n, T->elements());
    }
    delete T;
    SIM_EXPECT(!S.used, "leak", "a destroyed table kept its memory");
    SIM_EXPECT(!live_elems(), "leak", "%zu elements were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
void gen(Rng& r, Program& p) {
    p.params = {(int64_t)r.below(3), 0, (int64_t)r.below(2)};
    int n = 20 + (int)r.below(50);
    for (int k = 0; k < n; k++)
        p.ops.push_back(mkop(0, (int)r.below(NOPS), (int64_t)r.below(60), (int64_t)r.below(64)));
}
SIM_SCENARIO(hash_limit, "hash_limit", gen, run);
}  // namespace scen_hash_limit

// Plain keys by the ten thousand: whatever is kept in fewer bits than it needs shows only there.
namespace scen_hash_big {

struct Ent {
    uint32_t k;
    uint32_t v;
    Ent(int64_t k, uint32_t v) : k((uint32_t)k), v(v) {}
};
struct TP {
    typedef Ent Payload;
    static uint32_t hash(int64_t k) {
        return ke::HashInteger<4>((uint32_t)k);
    }
    static bool matches(int64_t k, const Ent& e) {
        return e.k == k;
    }
};
typedef ke::HashTable<TP, Pol> Table;

const int64_t kMaxKeys = 100000;
ORACLE Table* T;
ORACLE std::vector<uint32_t>* g_val; // 0: absent
ORACLE Oi64 g_count;
ORACLE Oi64 g_keys;

int64_t key_of(int64_t i) {
    return i * 0x4001 + 5;
}
int64_t index_of(int64_t k) {
    return (k - 5) / 0x4001;
}
__attribute__((noinline)) uint32_t& val(int64_t i) {
    return (*g_val)[(size_t)i];
}

bool init(uint64_t cap) {
    uint64_t r0 = R.refused[self()];
    bool ok = T->init((size_t)cap);
    SIM_EXPECT(ok || R.refused[self()] != r0, "spurious-failure", "init(%llu) failed although the policy refused nothing",
               (unsigned long long)cap);
    return ok;
}
bool add(int64_t i, uint32_t v) {
    int me = self();
    uint64_t r0 = R.refused[me] + R.overflows[me];
    Table::Insert ins = T->findForAdd(key_of(i));
    SIM_EXPECT(ins.found() == (val(i) != 0), "map", "findForAdd says %sfound for key %lld of %lld", val(i) ? "not " : "",
               (long long)i, (long long)g_count);
    if (ins.found()) {
        SIM_EXPECT(ins->k == key_of(i) && ins->v == val(i), "map", "findForAdd finds another element");
        ins->v = v;
        val(i) = v;
        return true;
    }
    if (!T->add(ins, Ent(key_of(i), v))) {
        SIM_EXPECT(R.refused[me] + R.overflows[me] != r0, "spurious-failure",
                   "add failed although the policy refused nothing");
        probe("add-failed");
        return false;
    }
    SIM_EXPECT(ins.found() && ins->k == key_of(i) && ins->v == v, "map", "the Insert is not valid after add()");
    val(i) = v;
    g_count++;
    return true;
}
void find(int64_t i) {
    Table::Result r = T->find(key_of(i));
    SIM_EXPECT(r.found() == (val(i) != 0), "map", "find says %sfound for key %lld of %lld", val(i) ? "not " : "",
               (long long)i, (long long)g_count);
    if (r.found())
        SIM_EXPECT(r->k == key_of(i) && r->v == val(i), "map", "find finds another element");
}
void remove(int64_t i, bool by_result) {
    if (by_result) {
        Table::Result r = T->find(key_of(i));
        SIM_EXPECT(r.found() == (val(i) != 0), "map", "find is wrong about key %lld", (long long)i);
        if (r.found())
            T->remove(r);
    } else {
        T->removeIfExists(key_of(i));
    }
    if (val(i)) {
        val(i) = 0;
        g_count--;
    }
}
void check_size() {
    SIM_EXPECT((int64_t)T->elements() == g_count, "map", "elements() is %zu, not %lld", T->elements(), (long long)g_count);
    SIM_EXPECT(T->estimateMemoryUse() == R.bytes[1], "memory-use", "estimateMemoryUse() is %zu, the policy lent %llu bytes",
               T->estimateMemoryUse(), (unsigned long long)R.bytes[1]);
}
// Every element once; erases each |mod|-th.
void iterate(int mod) {
    std::vector<bool>* seen;
    {
        Quiet q;
        seen = new std::vector<bool>((size_t)g_keys);
    }
    int64_t n = 0, erased = 0;
    for (Table::iterator it(T); !it.empty(); it.next()) {
        int64_t i = index_of(it->k);
        bool ok = i >= 0 && i < g_keys && key_of(i) == it->k && val(i) && val(i) == it->v;
        SIM_EXPECT(ok, "map", "iteration gives an element that is not there");
        SIM_EXPECT(!(*seen)[(size_t)i], "map", "iteration gives key %lld twice", (long long)i);
        {
            Quiet q;
            (*seen)[(size_t)i] = true;
        }
        n++;
        if (mod && i % mod == 0) {
            it.erase();
            val(i) = 0;
            erased++;
        }
    }
    SIM_EXPECT(n == g_count, "map", "iteration gives %lld of %lld elements", (long long)n, (long long)g_count);
    g_count -= erased;
    {
        Quiet q;
        delete seen;
    }
    check_size();
}

enum { FILL, FILL2, REMOVE, FIND, ITER, ERASE, CLEAR, CLEAR2, MOVE, NOPS };

static void body(int, const Op& op) {
    int64_t from = (op.a & 0xffffff) * g_keys / 0x1000000;
    int64_t to = (op.b & 0xffffff) * g_keys / 0x1000000;
    if (from > to)
        std::swap(from, to);
    int c = clampi(op.c, 64);
    switch (clampi(op.code, NOPS)) {
        case FILL:
        case FILL2:
            for (int64_t i = from; i < to; i += 1 + c % 2)
                if (!add(i, (uint32_t)(i * 3 + 1 + c)))
                    break;
            break;
        case REMOVE:
            for (int64_t i = from; i < to; i++)
                remove(i, c & 1);
            break;
        case FIND:
            for (int64_t i = from; i < to; i++)
                find(i);
            break;
        case ITER:
            iterate(0);
            break;
        case ERASE:
            iterate(1 + c % 4);
            break;
        case CLEAR:
        case CLEAR2:
            if (T->elements() > 65536)
                probe("clear64k");
            T->clear();
            {
                Quiet q;
                std::fill(g_val->begin(), g_val->end(), 0u);
            }
            g_count = 0;
            check_size();
            iterate(0);
            break;
        case MOVE: {
            Table* n = new Table(std::move(*T));
            delete T;
            T = n;
            break;
        }
    }
    check_size();
    if (g_count > 65536)
        probe("big64k");
    else if (g_count > 4096)
        probe("big4k");
}
void run(const Program& p) {
    set_max_steps(200000000);
    reg_reset();
    int pool = R.npools++;
    SIM_EXPECT(pool == 1, "harness", "pool %d", pool);
    g_count = 0;
    static const int64_t keys[] = {1500, 6000, 20000, kMaxKeys};
    g_keys = keys[clampi(p.p(1), 4)];
    size_t base = live_blocks();
    {
        Quiet q;
        g_val = new std::vector<uint32_t>((size_t)g_keys);
    }
    T = new Table(Pol(pool));
    static const uint64_t caps[] = {16, 16, 4096, 8192, 2048, 131072};
    uint64_t cap = caps[clampi(p.p(2), 6)];
    enable_fault(F_POLICY);
    if (init(cap)) {
        run_threads(p, 1, body);
        disable_faults();
        set_no_preempt(true);
        for (int64_t i = 0; i < g_keys; i++)
            find(i);
        iterate(0);
    }
    disable_faults();
    delete T;
    SIM_EXPECT(R.bytes[1] == 0, "leak", "a destroyed table kept its memory");
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
void gen(Rng& r, Program& p) {
    uint64_t d = r.below(100);
    int size = d < 60 ? 0 : d < 90 ? 1 : d < 97 ? 2 : 3;
    p.params = {(int64_t)r.below(3), size, (int64_t)r.below(6)};
    int n = 2 + (int)r.below(8);
    p.ops.push_back(mkop(0, FILL, 0, 0xffffff, 0));
    for (int k = 0; k < n; k++)
        p.ops.push_back(mkop(0, (int)r.below(NOPS), (int64_t)r.below(1 << 24), (int64_t)r.below(1 << 24), (int64_t)r.below(64)));
}
SIM_SCENARIO(hash_big, "hash_big", gen, run);
}  // namespace scen_hash_big
