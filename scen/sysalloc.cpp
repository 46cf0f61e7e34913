// C13: the default allocation policy: out of memory stops the process, at once and only then.
#include "elem.h"

#include <amtl/am-fixedarray.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

using namespace sim;
using namespace elems;

namespace scen_sysalloc {

struct HP {
    static uint32_t hash(int64_t k) {
        return (uint32_t)k;
    }
    static uint32_t hash(const Elem& e) {
        return (uint32_t)e.get();
    }
    static bool matches(int64_t k, const Elem& e) {
        return k == e.get();
    }
    static bool matches(const Elem& k, const Elem& e) {
        return k.get() == e.get();
    }
};
typedef ke::HashMap<Elem, Elem, HP> Map;
typedef ke::HashSet<Elem, HP> Set;
typedef ke::FixedArray<Elem> Arr;
// A page each, so that few of them make a large block.
struct Page {
    char b[4096];
    Page() {}
    bool operator==(const Page& o) const { return b[0] == o.b[0]; }
    bool operator!=(const Page& o) const { return !(*this == o); }
};
struct PageHP {
    typedef Page Payload;
    static uint32_t hash(uint32_t k) {
        return k;
    }
    static bool matches(uint32_t k, const Page& p) {
        return (unsigned char)p.b[0] == k;
    }
};
typedef ke::FixedArray<Page> Pages;
typedef ke::HashTable<PageHP> PageTable;

const int kMaxT = 4;
struct St {
    Ou64 base[kMaxT + 2];    // malloc failures of this thread before the current operation
    Obool overflow[kMaxT + 2];  // the operation asks for more than can be
    Obool inside[kMaxT + 2];
};
ORACLE St S;
ORACLE Map* g_map[kMaxT];
ORACLE Set* g_set[kMaxT];
ORACLE Arr* g_arr[kMaxT][2];

static bool refused() {
    return malloc_refusals() != S.base[self()];
}
static void on_death(const char* why) {
    int me = self();
    SIM_EXPECT(!strcmp(why, "abort"), "wrong-death", "the process ended by %s, not abort()", why);
    SIM_EXPECT(S.inside[me], "wrong-death", "abort() outside a container operation");
    SIM_EXPECT(refused() || S.overflow[me], "wrong-death", "abort() although no memory was refused");
    probe(S.overflow[me] ? "abort-overflow" : "abort-oom");
}
static void watch() {
    if (S.inside[self()] && refused())
        violation("continued", "an element is made or destroyed after memory was refused");
}
struct Inside {
    Inside(bool overflow = false) {
        int me = self();
        S.base[me] = malloc_refusals();
        S.overflow[me] = overflow;
        S.inside[me] = true;
    }
    ~Inside() {
        int me = self();
        S.inside[me] = false;
        SIM_EXPECT(!refused(), "continued", "the operation went on after memory was refused");
        SIM_EXPECT(!S.overflow[me], "continued", "the operation went on after a request that is too large");
    }
};

enum { MADD, MADD2, MADDN, MDEL, SADD, SADDN, ARR, ARR2, ARRASSIGN, ARRVEC, RAW, RAW2, REMAKE, SREMAKE, OVER, BIG, BIGARR, BIGTABLE, NOPS };

static void body(int t, const Op& op) {
    int64_t k = clampi(op.a, 100);
    switch (clampi(op.code, NOPS)) {
        case MADD:
        case MADD2:
        case MADDN:
            if (!g_map[t])
                break;
            for (int n = 0; n < (clampi(op.code, NOPS) == MADDN ? 1 + clampi(op.b, 20) : 1); n++) {
                Map::Insert i = g_map[t]->findForAdd(k + n);
                if (i.found())
                    continue;
                bool ok;
                {
                    Elem ek(k + n), ev(7);
                    Inside in;
                    ok = op.c & 1 ? g_map[t]->add(i, ek, ev) : g_map[t]->add(i, ek);
                }
                SIM_EXPECT(ok, "continued", "add() gave up");
                SIM_EXPECT(g_map[t]->find(k + n).found(), "continued", "add() did not add");
            }
            break;
        case MDEL:
            if (!g_map[t])
                break;
            for (int n = 0; n < clampi(op.b, 30); n++) {
                Inside in;
                g_map[t]->removeIfExists(k + n);
            }
            break;
        case SADD:
        case SADDN:
            if (!g_set[t])
                break;
            for (int n = 0; n < (clampi(op.code, NOPS) == SADDN ? 1 + clampi(op.b, 20) : 1); n++) {
                {
                    Elem ek(k + n);
                    Inside in;
                    g_set[t]->add(ek);
                }
                SIM_EXPECT(g_set[t]->has(k + n), "continued", "add() did not add");
            }
            break;
        case ARR:
        case ARR2: {
            int i = op.a & 1;
            size_t n = clampi(op.c, 20);
            if (g_arr[t][i]) {
                Inside in;
                delete g_arr[t][i];
                g_arr[t][i] = nullptr;
            }
            void* mem = operator new(sizeof(Arr));
            Arr* a;
            {
                Inside in;
                if (op.b & 1 && g_arr[t][!i])
                    a = new (mem) Arr(*g_arr[t][!i]);
                else
                    a = new (mem) Arr(n);
            }
            SIM_EXPECT(a->initialize(), "continued", "the array has no memory");
            g_arr[t][i] = a;
            break;
        }
        case ARRASSIGN: {
            int i = op.a & 1;
            if (!g_arr[t][i] || !g_arr[t][!i])
                break;
            size_t n;
            {
                Inside in;
                if (op.b & 1)
                    *g_arr[t][i] = std::move(*g_arr[t][!i]);
                else
                    *g_arr[t][i] = *g_arr[t][!i];
                n = g_arr[t][i]->size();
            }
            SIM_EXPECT(g_arr[t][i]->initialize() && n < 1000, "continued", "the array has no memory");
            break;
        }
        case ARRVEC: {
            std::vector<Elem> v;
            v.reserve(20);
            for (int n = 0; n < clampi(op.c, 20); n++)
                v.emplace_back(n);
            Inside in;
            Arr a(v);
            SIM_EXPECT(a.initialize() && a.size() == v.size(), "continued", "the array has no memory");
            break;
        }
        case RAW:
        case RAW2: {
            ke::SystemAllocatorPolicy pol;
            size_t n = 1 + clampi(op.b * 17, 500);
            char* p;
            {
                Inside in;
                p = (char*)pol.am_malloc(n);
            }
            SIM_EXPECT(p, "continued", "am_malloc returned null");
            SIM_EXPECT(live_range(p, n), "short-block", "am_malloc(%zu) returned less", n);
            memset(p, 1, n);
            {
                Inside in;
                pol.am_free(p);
                pol.am_free(nullptr);
            }
            break;
        }
        case BIG: {
            static const size_t sizes[] = {0,     1,     2047,  4096,   16384,   32768,   65535,        65536,
                                           65537, 69632, 99999, 262144, 1048576, 2097153, size_t(9) << 20, size_t(1) << 32,
                                           SIZE_MAX / 2 + 1, SIZE_MAX - 15};
            // (the last ones always end the run)
            size_t n = sizes[clampi(op.c, 64) < 8 ? clampi(op.a, 18) : clampi(op.a, 14)];
            ke::SystemAllocatorPolicy pol;
            char* p;
            {
                Inside in;
                p = (char*)pol.am_malloc(n);
                SIM_EXPECT(p, "continued", "am_malloc(%zu) returned null", n);
            }
            SIM_EXPECT(live_range(p, n), "short-block", "am_malloc(%zu) returned less", n);
            if (n)
                p[0] = p[n - 1] = 1;
            {
                Inside in;
                pol.am_free(p);
            }
            probe("large");
            break;
        }
        case BIGARR: {
            size_t n = 1 + clampi(op.a * op.b, 400);
            Inside in;
            Pages a(n);
            SIM_EXPECT(a.initialize() && a.size() == n && live_range(&a[0], n * sizeof(Page)), "continued",
                       "the array of %zu pages has no memory", n);
            a[n - 1].b[4095] = 1;
            break;
        }
        case BIGTABLE: {
            static const size_t caps[] = {16, 32, 64, 128, 256, 512};
            PageTable m;
            {
                Inside in;
                SIM_EXPECT(m.init(caps[clampi(op.a, 6)]), "continued", "init() gave up");
            }
            for (int n = 0; n < clampi(op.b, 60); n++) {
                PageTable::Insert i = m.findForAdd((uint32_t)n);
                Inside in;
                SIM_EXPECT(m.add(i), "continued", "add() gave up");
                i->b[0] = (char)n;
            }
            break;
        }
        case REMAKE:
        case SREMAKE: {
            static const size_t caps[] = {0, 16, 32, 64};
            void* mem;
            if (clampi(op.code, NOPS) == REMAKE) {
                if (g_map[t]) {
                    Inside in;
                    delete g_map[t];
                }
                g_map[t] = nullptr;
                mem = operator new(sizeof(Map));
                Map* m = new (mem) Map;
                bool ok;
                {
                    Inside in;
                    ok = m->init(caps[op.b & 3]);
                }
                SIM_EXPECT(ok, "continued", "init() gave up");
                g_map[t] = m;
            } else {
                if (g_set[t]) {
                    Inside in;
                    delete g_set[t];
                }
                g_set[t] = nullptr;
                mem = operator new(sizeof(Set));
                Set* m = new (mem) Set;
                bool ok;
                {
                    Inside in;
                    ok = m->init(caps[op.b & 3]);
                }
                SIM_EXPECT(ok, "continued", "init() gave up");
                g_set[t] = m;
            }
            break;
        }
        case OVER: {
            if (clampi(op.b, 12))  // rare: it always ends the run
                break;
            if (op.c & 1) {
                Map m;
                Inside in(true);
                m.init(size_t(1) << (40 + clampi(op.a, 20)));
            } else if (op.c & 2) {
                Inside in(true);
                Arr a(op.a & 1 ? SIZE_MAX / 2 - (size_t)clampi(op.a, 100) : SIZE_MAX / sizeof(Elem) + 1 + (size_t)clampi(op.a, 100));
            } else {
                Inside in(true);
                ke::SystemAllocatorPolicy pol;
                pol.reportAllocationOverflow();
            }
            break;
        }
    }
}
static void run(const Program& p) {
    reg_reset();
    R.watch = watch;
    memset((void*)&S, 0, sizeof(S));
    memset((void*)g_map, 0, sizeof(g_map));
    memset((void*)g_set, 0, sizeof(g_set));
    memset((void*)g_arr, 0, sizeof(g_arr));
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    on_abort(on_death);
    enable_fault(F_MALLOC);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int t = 0; t < nt; t++) {
        delete g_map[t];
        delete g_set[t];
        delete g_arr[t][0];
        delete g_arr[t][1];
    }
    probe("survived");
    SIM_EXPECT(!live_elems(), "leak", "%zu elements were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        p.ops.push_back(mkop(t, REMAKE, 0, (int64_t)r.below(4)));
        p.ops.push_back(mkop(t, SREMAKE, 0, (int64_t)r.below(4)));
        int n = 3 + (int)r.below(14);
        for (int k = 0; k < n; k++) {
            int code = r.chance(0.02) ? BIG + (int)r.below(3) : (int)r.below(BIG);
            p.ops.push_back(mkop(t, code, (int64_t)r.below(100), (int64_t)r.below(60), (int64_t)r.below(64)));
        }
    }
}
SIM_SCENARIO(sysalloc, "sysalloc", gen, run);
}  // namespace scen_sysalloc
