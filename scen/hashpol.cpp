// C10/C11: maps and sets keyed by pointers, texts and integers with the hash functions that come with the library.
#include "elem.h"

#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>

#include <string>

using namespace sim;
using namespace elems;

namespace scen_hash_policy {

const int kMaxT = 3;
const int kKeys = 120;

// Keys that are easily taken for each other.
struct Thing {
    int x;
};
struct Pointers {
    typedef Thing* K;
    typedef ke::PointerPolicy<Thing> Policy;
    static K make(int i) {
        uintptr_t n = (uintptr_t)(i / 4);
        switch (i % 4) {
            case 0: return (Thing*)n;                                   // null, and neighbours
            case 1: return (Thing*)(uintptr_t(0x7fff12345678) + n * 16);
            case 2: return (Thing*)(uintptr_t(n + 1) << 32);            // differ in the upper half only
            default: return (Thing*)((n + 1) << 40 | 8);
        }
    }
    template <typename F>
    static void lookup(int i, int, F f) {
        K k = make(i);
        f(k);
    }
    static bool same(const K& k, int i) {
        return k == make(i);
    }
};
template <int How>
struct Texts {
    typedef std::string K;
    struct View {
        const char* s;
        size_t n;
    };
    struct Policy {
        static uint32_t hash(const std::string& s) {
            return of(s.data(), s.size());
        }
        static uint32_t hash(const View& v) {
            return of(v.s, v.n);
        }
        static uint32_t of(const char* s, size_t n) {
            if (How == 0)
                return ke::HashCharSequence(s, n);
            if (How == 1)
                return ke::FastHashCharSequence(s, n);
            ke::CharacterStreamHasher h;  // in pieces, as they come
            h.add(s, n / 2);
            for (size_t i = n / 2; i < n; i++)
                h.add(s[i]);
            return h.result();
        }
        static bool matches(const std::string& a, const std::string& b) {
            return a == b;
        }
        static bool matches(const View& a, const std::string& b) {
            return a.n == b.size() && !memcmp(a.s, b.data(), a.n);
        }
    };
    static std::string make(int i) {
        int n = i / 5;
        switch (i % 5) {
            case 0: return std::string((size_t)n, 'a');  // the empty one, and prefixes of each other
            case 1: return std::string(1, (char)(n * 9 + 1)) + "\xff\x80";
            case 2: return std::string(300, 'q') + (char)('a' + n);
            case 3: return std::string((size_t)n + 1, '\0');
            default: return (char)('A' + n) + std::string(20, 'z');
        }
    }
    template <typename F>
    static void lookup(int i, int how, F f) {
        std::string s = make(i);
        if (how & 1) {
            f(s);
            return;
        }
        // Elsewhere, with nothing readable behind it.
        size_t n = s.size();
        char* p = (char*)arena_alloc(n ? n : 1);
        {
            Quiet q;
            memcpy(p, s.data(), n);
        }
        View v{p, n};
        f(v);
        arena_free(p);
    }
    static bool same(const K& k, int i) {
        return k == make(i);
    }
};
template <int How>
struct Numbers {
    typedef int64_t K;
    struct Policy {
        static uint32_t hash(int64_t k) {
            switch (How) {
                case 0: return ke::HashInteger<8>((uintptr_t)k);
                case 1: return ke::HashInt64(k);
                case 2: return ke::HashInt32((int32_t)k);
                default: return ke::HashCombine(ke::HashInt32((int32_t)k), ke::HashInt32((int32_t)(k >> 32)));
            }
        }
        static bool matches(int64_t a, int64_t b) {
            return a == b;
        }
    };
    static int64_t make(int i) {
        int64_t n = i / 4;
        switch (i % 4) {
            case 0: return n;
            case 1: return -n - 1;
            case 2: return (n + 1) << 32;
            default: return INT64_MAX - n;
        }
    }
    template <typename F>
    static void lookup(int i, int, F f) {
        int64_t k = make(i);
        f(k);
    }
    static bool same(const K& k, int i) {
        return k == make(i);
    }
};

template <typename W>
struct World {
    typedef typename W::K K;
    typedef ke::HashMap<K, int, typename W::Policy, Pol> Map;
    typedef ke::HashSet<K, typename W::Policy, Pol> Set;
    struct Mine {
        Map* m;
        Set* s;
        int pool;
        Oint in_map[kKeys];  // 0: absent
        Obool in_set[kKeys];
    };
    ORACLE static Mine w[kMaxT + 1];  // the last one is read by all

    static void count(Mine& x) {
        size_t nm = 0, ns = 0;
        for (int i = 0; i < kKeys; i++) {
            nm += x.in_map[i] != 0;
            ns += x.in_set[i];
        }
        SIM_EXPECT(x.m->elements() == nm, "map", "elements() is %zu instead of %zu", x.m->elements(), nm);
        SIM_EXPECT(x.s->elements() == ns, "map", "elements() is %zu instead of %zu", x.s->elements(), ns);
    }
    static void find(Mine& x, int i, int how) {
        W::lookup(i, how, [&](const auto& k) {
            typename Map::Result r = x.m->find(k);
            SIM_EXPECT(r.found() == (x.in_map[i] != 0), "map", "find says %sfound for key %d", x.in_map[i] ? "not " : "", i);
            if (r.found())
                SIM_EXPECT(W::same(r->key, i) && r->value == x.in_map[i], "map", "find finds another element for key %d", i);
            SIM_EXPECT(x.s->has(k) == x.in_set[i], "map", "has() is wrong about key %d", i);
        });
    }
    static void add(Mine& x, int i, int v, int how) {
        uint64_t r0 = R.refused[self()];
        bool tried = false, ok = true;
        W::lookup(i, how, [&](const auto& k) {
            typename Map::Insert ins = x.m->findForAdd(k);
            SIM_EXPECT(ins.found() == (x.in_map[i] != 0), "map", "findForAdd says %sfound for key %d", x.in_map[i] ? "not " : "", i);
            if (ins.found()) {
                SIM_EXPECT(W::same(ins->key, i), "map", "findForAdd finds another element");
                ins->value = v;
            } else {
                tried = true;
                ok = x.m->add(ins, W::make(i), v);
                if (ok)
                    SIM_EXPECT(W::same(ins->key, i) && ins->value == v, "map", "the Insert is not valid after add()");
            }
        });
        if (ok)
            x.in_map[i] = v;
        SIM_EXPECT(ok || (tried && R.refused[self()] != r0), "spurious-failure", "add failed although nothing was refused");
        r0 = R.refused[self()];
        if (how & 2) {
            bool was = x.in_set[i];
            ok = true;
            if constexpr (std::is_void<decltype(x.s->add(W::make(i)))>::value) {
                x.s->add(W::make(i));
                SIM_EXPECT(R.refused[self()] == r0, "unreported", "add of a set failed and said nothing");
            } else {
                ok = x.s->add(W::make(i));
            }
            SIM_EXPECT(ok || (!was && R.refused[self()] != r0), "spurious-failure", "add failed although nothing was refused");
            if (ok)
                x.in_set[i] = true;
        } else {
            W::lookup(i, how, [&](const auto& k) {
                typename Set::Insert ins = x.s->findForAdd(k);
                SIM_EXPECT(ins.found() == x.in_set[i], "map", "findForAdd of a set is wrong about key %d", i);
                if (ins.found())
                    return;
                if (x.s->add(ins, W::make(i)))
                    x.in_set[i] = true;
                else
                    SIM_EXPECT(R.refused[self()] != r0, "spurious-failure", "add failed although nothing was refused");
            });
        }
    }
    static void remove(Mine& x, int i, int how) {
        W::lookup(i, how, [&](const auto& k) {
            if (how & 2) {
                x.m->removeIfExists(k);
                x.s->removeIfExists(k);
            } else {
                typename Map::Result r = x.m->find(k);
                SIM_EXPECT(r.found() == (x.in_map[i] != 0), "map", "find is wrong about key %d", i);
                if (r.found())
                    x.m->remove(r);
                typename Set::Result q = x.s->find(k);
                SIM_EXPECT(q.found() == x.in_set[i], "map", "find of a set is wrong about key %d", i);
                if (q.found())
                    x.s->remove(q);
            }
        });
        x.in_map[i] = 0;
        x.in_set[i] = false;
    }
    static void iterate(Mine& x, int mod) {
        bool seen[kKeys] = {}, seen2[kKeys] = {};
        for (typename Map::iterator it = x.m->iter(); !it.empty(); it.next()) {
            int i = 0;
            while (i < kKeys && (!x.in_map[i] || !W::same(it->key, i)))
                i++;
            SIM_EXPECT(i < kKeys, "map", "iteration gives an element that is not there");
            SIM_EXPECT(!seen[i] && it->value == x.in_map[i], "map", "iteration gives key %d twice, or wrongly", i);
            seen[i] = true;
            if (mod && i % mod == 0) {
                it.erase();
                x.in_map[i] = 0;
            }
        }
        for (typename Set::iterator it = x.s->iter(); !it.empty(); it.next()) {
            int i = 0;
            while (i < kKeys && (!x.in_set[i] || !W::same(*it, i)))
                i++;
            SIM_EXPECT(i < kKeys && !seen2[i], "map", "iteration of a set gives an element that is not there, or twice");
            seen2[i] = true;
            if (mod && i % mod == 1 % mod) {
                it.erase();
                x.in_set[i] = false;
            }
        }
        for (int i = 0; i < kKeys; i++)
            SIM_EXPECT((seen[i] || !x.in_map[i]) && (seen2[i] || !x.in_set[i]), "map", "iteration misses key %d", i);
    }

    enum { ADD, ADD2, FILL, REMOVE, FIND, SHARED, SHARED2, ITER, ERASE, CLEAR, MOVE, NOPS };

    static void body(int t, const Op& op) {
        Mine& x = w[t];
        int i = clampi(op.a, kKeys), how = clampi(op.b, 4), c = clampi(op.c, 64);
        if (!x.m)
            return;
        switch (clampi(op.code, NOPS)) {
            case ADD:
            case ADD2:
                add(x, i, 1 + c, how);
                break;
            case FILL:
                for (int k = 0; k < c; k++)
                    add(x, (i + k * (1 + how)) % kKeys, 1 + k, how);
                break;
            case REMOVE:
                for (int k = 0; k <= c % 8; k++)
                    remove(x, (i + k) % kKeys, how);
                break;
            case FIND: find(x, i, how); break;
            case SHARED:
            case SHARED2:
                if (w[kMaxT].m) {
                    for (int k = 0; k < 4; k++)
                        find(w[kMaxT], (i + k) % kKeys, how);
                    probe("shared");
                }
                break;
            case ITER: iterate(x, 0); break;
            case ERASE: iterate(x, 1 + c % 4); break;
            case CLEAR:
                x.m->clear();
                x.s->clear();
                for (int k = 0; k < kKeys; k++) {
                    x.in_map[k] = 0;
                    x.in_set[k] = false;
                }
                break;
            case MOVE: {
                Map* n = new Map(std::move(*x.m));
                delete x.m;
                x.m = n;
                Set* s = new Set(std::move(*x.s));
                delete x.s;
                x.s = s;
                break;
            }
        }
        count(x);
    }
    static void begin(int t) {
        Mine& x = w[t];
        x.pool = R.npools++;
        Map* m = new Map(Pol(x.pool));
        Set* s = new Set(Pol(x.pool));
        uint64_t r0 = R.refused[self()];
        bool ok = m->init(16) && s->init();
        SIM_EXPECT(ok || R.refused[self()] != r0, "spurious-failure", "init() failed although nothing was refused");
        if (ok) {
            x.m = m;
            x.s = s;
        } else {
            delete m;
            delete s;
        }
    }
    static void end(int t) {
        Mine& x = w[t];
        if (!x.m)
            return;
        for (int i = 0; i < kKeys; i++)
            find(x, i, i);
        iterate(x, 0);
        delete x.m;
        delete x.s;
        SIM_EXPECT(R.bytes[x.pool] == 0, "leak", "destroyed containers kept their memory");
    }
    static void run(const Program& p) {
        set_max_steps(20000000);
        reg_reset();
        memset((void*)w, 0, sizeof(w));
        int nt = 1 + clampi(p.p(1), kMaxT);
        size_t base = live_blocks();
        begin(kMaxT);
        for (int i = 0; i < kKeys; i++) {
            if ((p.p(3) >> (i % 32) & 1) && w[kMaxT].m)
                add(w[kMaxT], i, i + 1, i);
        }
        enable_fault(F_POLICY);
        enable_fault(F_STALL);
        run_threads(p, nt, body, begin, end);
        disable_faults();
        set_no_preempt(true);
        end(kMaxT);
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
    }
};
template <typename W>
ORACLE typename World<W>::Mine World<W>::w[kMaxT + 1];

static void run(const Program& p) {
    switch (clampi(p.p(2), 8)) {
        case 0: World<Texts<0>>::run(p); break;
        case 1: World<Texts<1>>::run(p); break;
        case 2: World<Texts<2>>::run(p); break;
        case 3: World<Numbers<0>>::run(p); break;
        case 4: World<Numbers<1>>::run(p); break;
        case 5: World<Numbers<2>>::run(p); break;
        case 6: World<Numbers<3>>::run(p); break;
        default: World<Pointers>::run(p); break;
    }
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(8), (int64_t)r.below(1ll << 32)};
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(10);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(11), (int64_t)r.below(kKeys), (int64_t)r.below(4), (int64_t)r.below(64)));
    }
}
SIM_SCENARIO(hash_policy, "hash_policy", gen, run);
}  // namespace scen_hash_policy
