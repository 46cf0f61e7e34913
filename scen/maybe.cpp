// C22: a Maybe holds at most one value, and destroys each exactly once.
#include "elem.h"

#include <amtl/am-maybe.h>
#include <amtl/am-mutex.h>

#include <mutex>

using namespace sim;
using namespace elems;

namespace scen_maybe {

// A value that needs more alignment than a word.
class alignas(16) Wide {
    Elem e_;
    __attribute__((noinline)) static int64_t placed(const void* p, int64_t v) {
        uintptr_t at = (uintptr_t)p;
        asm volatile("" : "+r"(at));
        SIM_EXPECT(!(at % 16), "alignment", "a value is made at an address not aligned for its type");
        return v;
    }

  public:
    explicit Wide(int64_t v) : e_(placed(this, v)) {}
    Wide(const Wide& o) : e_((cancel_if_fragile(), o.e_)) {
        placed(this, 0);
    }
    Wide(Wide&& o) noexcept : e_(std::move(o.e_)) {
        placed(this, 0);
    }
    Wide& operator=(const Wide& o) {
        cancel_if_fragile();
        e_ = o.e_;
        return *this;
    }
    Wide& operator=(Wide&& o) noexcept {
        e_ = std::move(o.e_);
        return *this;
    }
    int64_t get() const {
        return e_.get();
    }
    void set(int64_t v) {
        e_.set(v);
    }
    bool operator==(const Wide& o) const {
        return e_ == o.e_;
    }
    bool operator!=(const Wide& o) const {
        return e_ != o.e_;
    }
};

const int kMaxT = 4;
const int kSlots = 3;
const int64_t kEmpty = -1;

template <typename T>
struct World {
    ke::Maybe<T>* m[kMaxT][kSlots];
    Oi64 want[kMaxT][kSlots];
    ke::Maybe<T>* mail;
    Oi64 mwant;
};
ORACLE World<Elem> g_e;
ORACLE World<Frail> g_f;
ORACLE World<Wide> g_w;
ORACLE ke::Mutex* g_lock;

template <typename T>
static void check(ke::Maybe<T>& m, int64_t want, const char* what) {
    SIM_EXPECT(m.isValid() == (want != kEmpty) && !!m == (want != kEmpty), "valid", "%s %s a value", what,
               want != kEmpty ? "lacks" : "has");
    if (want != kEmpty) {
        const ke::Maybe<T>& c = m;
        SIM_EXPECT(m.get().get() == want && (*m).get() == want && (*c).get() == want && c.get().get() == want
#ifndef SIM_LITE
                       && m->get() == want && c->get() == want
#endif
                       , "value",
                   "%s has value %ld instead of %ld", what, (long)m.get().get(), (long)want);
    }
}
template <typename T>
static void settle(ke::Maybe<T>& m, Oi64& want) {
    probe("failed");
    if (!m.isValid())
        want = kEmpty;
    check(m, want, "after a failure, a Maybe");
}

enum { INIT, INITCOPY, SOME, COPY, MOVE, COPYCTOR, MOVECTOR, SELFCOPY, SELFMOVE, NOTHING, SET, SEND, RECV, NOPS };

template <typename T>
static void step(World<T>& w, int t, const Op& op) {
    typedef ke::Maybe<T> M;
    int s = clampi(op.a, kSlots), d = clampi(op.a / kSlots, kSlots);
    M& m = *w.m[t][s];
    M& o = *w.m[t][d];
    Oi64& want = w.want[t][s];
    Oi64& owant = w.want[t][d];
    int code = clampi(op.code, NOPS);
    int64_t v = clampi(op.b, 1000);
    try {
        switch (code) {
            case INIT:
                m.init(v);
                want = v;
                break;
            case INITCOPY: {
                T x(v);
                {
                    Fragile fragile;
                    m.init(x);
                }
                want = v;
                break;
            }
            case SOME: {
                Fragile fragile;
                NoCopies none("a value moved in was");
                if (op.c & 2)
                    m = ke::Some(T(v));
                else
                    m.init(T(v));
                want = v;
                break;
            }
            case COPY:
                if (s == d)
                    break;
                {
                    Fragile fragile;
                    m = o;
                }
                want = owant;
                probe(want == kEmpty ? "assign-empty" : "assign-value");
                check(o, owant, "a Maybe copied from");
                break;
            case MOVE:
                if (s == d)
                    break;
                {
                    Fragile fragile;
                    NoCopies none("a value moved was");
                    m = std::move(o);
                }
                want = owant;
                owant = kEmpty;
                check(o, owant, "a Maybe moved from");
                break;
            case COPYCTOR:
            case MOVECTOR: {
                if (s == d)
                    break;
                void* p = arena_alloc(sizeof(M));
                try {
                    Fragile fragile;
                    if (code == COPYCTOR)
                        new (p) M(o);
                    else
                        new (p) M(std::move(o));
                } catch (Cancel&) {
                    arena_free(p);
                    check(o, owant, "a Maybe that failed to be copied");
                    throw;
                }
                m.~M();
                arena_free(w.m[t][s]);
                w.m[t][s] = (M*)p;
                want = owant;
                if (code == MOVECTOR)
                    owant = kEmpty;
                check(o, owant, "a Maybe copied or moved from");
                check(*w.m[t][s], want, "a new Maybe");
                return;
            }
            case SELFCOPY: {
                Fragile fragile;
                M& same = *w.m[t][s];
                m = same;
                probe("self-assign");
                break;
            }
            case SELFMOVE: {
                Fragile fragile;
                M& same = *w.m[t][s];
                m = std::move(same);
                if (!m)
                    want = kEmpty;
                break;
            }
            case NOTHING:
                m = ke::Nothing();
                want = kEmpty;
                break;
            case SET:
                if (want == kEmpty)
                    break;
                m.get().set(v);
                want = v;
                break;
            case SEND: {
                std::lock_guard<ke::Mutex> l(*g_lock);
                *w.mail = std::move(m);
                w.mwant = want;
                want = kEmpty;
                break;
            }
            case RECV: {
                std::lock_guard<ke::Mutex> l(*g_lock);
                m = std::move(*w.mail);
                want = w.mwant;
                w.mwant = kEmpty;
                break;
            }
        }
    } catch (Cancel&) {
        settle(m, want);
        if (s != d)
            check(o, owant, "a Maybe that failed to be copied");
    }
    check(*w.m[t][s], want, "a Maybe");
}
static void body(int t, const Op& op) {
    if (op.c & 1)
        step(g_e, t, op);
    else if (op.c & 4)
        step(g_w, t, op);
    else
        step(g_f, t, op);
}
template <typename T>
static void setup(World<T>& w, int nt) {
    for (int t = 0; t < nt; t++)
        for (int s = 0; s < kSlots; s++) {
            w.m[t][s] = new (arena_alloc(sizeof(ke::Maybe<T>))) ke::Maybe<T>;
            w.want[t][s] = kEmpty;
        }
    w.mail = new ke::Maybe<T>;
    w.mwant = kEmpty;
}
template <typename T>
static void teardown(World<T>& w, int nt) {
    for (int t = 0; t < nt; t++)
        for (int s = 0; s < kSlots; s++) {
            w.m[t][s]->~Maybe();
            arena_free(w.m[t][s]);
        }
    check(*w.mail, w.mwant, "a Maybe handed over");
    delete w.mail;
}
static void run(const Program& p) {
    reg_reset();
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    setup(g_e, nt);
    setup(g_f, nt);
    setup(g_w, nt);
    g_lock = new ke::Mutex;
    enable_fault(F_CANCEL);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    teardown(g_e, nt);
    teardown(g_f, nt);
    teardown(g_w, nt);
    delete g_lock;
    SIM_EXPECT(!live_elems(), "leak", "%zu values were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(22);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)(r.below(4) ? r.below(NOPS) : r.below(3)), (int64_t)r.below(kSlots * kSlots), (int64_t)r.below(1000), (int64_t)r.below(8)));
    }
}
SIM_SCENARIO(maybe, "maybe", gen, run);
}  // namespace scen_maybe
