// C20: ke::Function holds one callable at a time, and each one exactly once.
#include "elem.h"

#include <amtl/am-function.h>
#include <amtl/am-mutex.h>

#include <mutex>

using namespace sim;
using namespace elems;

namespace scen_function {

typedef ke::Function<int64_t(int64_t, Elem)> Func;

const int kMaxT = 4;
const int kSlots = 4;
const int kMail = 2;
const int64_t kEmpty = -1;

static int64_t result(int64_t id, int64_t x, int64_t e) {
    return id * 1000003 + x * 31 + e;
}
struct Small {
    Elem id;
    explicit Small(int64_t v) : id(v) {}
    int64_t operator()(int64_t x, Elem e) const {
        return result(id.get(), x, e.get());
    }
};
struct Big {
    Elem id;
    int64_t pad[6];
    explicit Big(int64_t v) : id(v) {
        for (int64_t& p : pad)
            p = v;
    }
    int64_t operator()(int64_t x, Elem e) const {
        for (int64_t p : pad)
            SIM_EXPECT(p == id.get(), "callable", "a callable is damaged");
        return result(id.get(), x, e.get());
    }
};
struct FrailSmall {
    Frail id;
    explicit FrailSmall(int64_t v) : id(v) {}
    int64_t operator()(int64_t x, Elem e) const {
        return result(id.get(), x, e.get());
    }
};
struct FrailBig {
    Frail id;
    int64_t pad[4];
    explicit FrailBig(int64_t v) : id(v), pad() {}
    int64_t operator()(int64_t x, Elem e) const {
        return result(id.get(), x, e.get());
    }
};
// Exactly as large as the storage inside the function, and one word more.
struct Edge {
    Elem id;
    explicit Edge(int64_t v) : id(v) {}
    int64_t operator()(int64_t x, Elem e) const {
        return result(id.get(), x, e.get());
    }
};
struct Over {
    Elem id;
    int64_t more;
    explicit Over(int64_t v) : id(v), more(~v) {}
    int64_t operator()(int64_t x, Elem e) const {
        SIM_EXPECT(more == ~id.get(), "callable", "a callable is damaged");
        return result(id.get(), x, e.get());
    }
};
static int64_t plain0(int64_t x, Elem e) {
    return result(9000, x, e.get());
}
static int64_t plain1(int64_t x, Elem e) {
    return result(9001, x, e.get());
}
const int64_t kNest = 1ll << 40;
const int64_t kSeek = -777;  // given to a callable, asks where its part is
ORACLE void* g_part[kMaxT + 1];
ORACLE bool g_small[kMaxT + 1];
// A function in a function.
struct Nest {
    mutable Func inner;
    explicit Nest(const Func& f) : inner(f) {}
    int64_t operator()(int64_t x, Elem e) const {
        if (x == kSeek) {
            g_part[self()] = &inner;
            return 0;
        }
        return inner(x, std::move(e)) + 7;
    }
};
// A callable with another one in it.
template <typename T>
struct Part {
    Elem id;
    T inner;
    explicit Part(int64_t v) : id(v), inner(v) {}
    int64_t operator()(int64_t x, Elem e) const {
        if (x == kSeek) {
            g_part[self()] = (void*)&inner;
            g_small[self()] = std::is_same<T, Small>::value;
        }
        SIM_EXPECT(id.get() == inner.id.get(), "callable", "a callable is damaged");
        return inner(x, std::move(e));
    }
};
typedef Part<Small> PartSmall;
typedef Part<FrailBig> PartBig;

// What a function should hold: kEmpty, or the identity of a callable (kNest is added per nesting).
ORACLE Oi64 g_want[kMaxT][kSlots];
ORACLE Oi64 g_mwant[kMail];
ORACLE Func* g_f[kMaxT][kSlots];
ORACLE Func* g_mail;
ORACLE ke::Mutex* g_lock;
ORACLE Oi64 g_next;

static int64_t expected(int64_t want, int64_t x, int64_t e) {
    int64_t nests = 0;
    while (want >= kNest)
        want -= kNest, nests++;
    return result(want, x, e) + 7 * nests;
}
static bool holds(Func& f, int64_t want) {
    if (want == kEmpty)
        return !f;
    if (!f)
        return false;
    int64_t x = 3;
    return f(x, Elem(5)) == expected(want, x, 5);
}
static void check(Func& f, int64_t want, const char* what) {
    if (want == kEmpty) {
        SIM_EXPECT(!f, "empty", "%s is not empty", what);
        return;
    }
    SIM_EXPECT(f, "empty", "%s is empty", what);
    SIM_EXPECT(holds(f, want), "call", "%s calls something else", what);
}
// After a failure, the target has its old callable or none.
static void settle(Func& f, Oi64& want, const char* what) {
    probe("failed");
    if (!f)
        want = kEmpty;
    else
        SIM_EXPECT(want != kEmpty && holds(f, want), "failure", "%s has something it never had", what);
}

enum { SMALL, BIG, FSMALL, FBIG, EDGE, OVER, PLAIN, LAMBDA, NEST, PSMALL, PBIG, KINDS };
enum { SET, SET2, SETCTOR, COPY, COPY2, COPYCTOR, MOVE, MOVECTOR, CLEAR, SELFCOPY, SELFMOVE, CALL, SEND, RECV, RUNMAIL, SWAP, INNER, INNERMOVE, NOPS };

// Calls |g| with a new callable.
template <typename G>
static int64_t with_callable(int t, int64_t kind, int from, bool lvalue, G g) {
    int64_t id = ++g_next;
#define GIVE(type)                       \
    {                                    \
        type c(id);                      \
        Fragile fragile;                 \
        if (lvalue) {                    \
            g(c);                        \
        } else {                         \
            NoCopies none("a callable moved in was"); \
            g(std::move(c));             \
        }                                \
        return id;                       \
    }
    switch (clampi(kind, KINDS)) {
        case SMALL: GIVE(Small)
        case BIG: GIVE(Big)
        case FSMALL: GIVE(FrailSmall)
        case FBIG: GIVE(FrailBig)
        case EDGE: GIVE(Edge)
        case OVER: GIVE(Over)
        case PSMALL: GIVE(PartSmall)
        case PBIG: GIVE(PartBig)
        case PLAIN:
            if (id & 1) {
                g(plain1);
                return 9001;
            }
            g(&plain0);
            return 9000;
        case LAMBDA: {
            int64_t k = id;
            g([k](int64_t x, Elem e) -> int64_t { return result(k, x, e.get()); });
            return id;
        }
        default: {
            Func& f = *g_f[t][from];
            int64_t w = g_want[t][from];
            if (w == kEmpty || w >= 3 * kNest) {
                Small c(id);
                g(c);
                return id;
            }
            Fragile fragile;
            Nest n(f);
            if (lvalue)
                g(n);
            else
                g(std::move(n));
            return w + kNest;
        }
    }
#undef GIVE
}
static void* place() {
    void* p = arena_alloc(sizeof(Func));
    if (!p)
        violation("harness", "simulated heap exhausted");
    return p;
}
static void drop(Func*& f) {
    f->~Func();
    arena_free(f);
    f = nullptr;
}

static void body(int t, const Op& op) {
    int s = clampi(op.a, kSlots), d = clampi(op.a / kSlots, kSlots), m = clampi(op.c, kMail);
    int code = clampi(op.code, NOPS);
    Func& f = *g_f[t][s];
    Oi64& want = g_want[t][s];
    switch (code) {
        case SET:
        case SET2:
            try {
                int64_t id = with_callable(t, op.b, d, op.c & 1, [&](auto&& c) { f = std::forward<decltype(c)>(c); });
                want = id;
            } catch (Cancel&) {
                settle(f, want, "a function whose assignment failed");
            } catch (std::bad_alloc&) {
                settle(f, want, "a function whose assignment failed");
            }
            break;
        case SETCTOR: {
            void* p = place();
            try {
                int64_t id = with_callable(t, op.b, d, op.c & 1, [&](auto&& c) { new (p) Func(std::forward<decltype(c)>(c)); });
                drop(g_f[t][s]);
                g_f[t][s] = (Func*)p;
                want = id;
            } catch (Cancel&) {
                arena_free(p);
            } catch (std::bad_alloc&) {
                arena_free(p);
            }
            break;
        }
        case COPY:
        case COPY2: {
            if (d == s)
                break;
            Func& o = *g_f[t][d];
            try {
                Fragile fragile;
                if (op.c & 1)
                    f = o;
                else
                    f = (const Func&)o;
                want = g_want[t][d];
                fragile.off();
                if (want == kEmpty)
                    probe("copy-empty");
            } catch (Cancel&) {
                R.fragile[self()] = false;
                settle(f, want, "a function whose assignment failed");
            } catch (std::bad_alloc&) {
                R.fragile[self()] = false;
                settle(f, want, "a function whose assignment failed");
            }
            check(o, g_want[t][d], "a function copied from");
            break;
        }
        case COPYCTOR: {
            if (d == s)
                break;
            Func& o = *g_f[t][d];
            void* p = place();
            try {
                {
                    Fragile fragile;
                    if (op.c & 1)
                        new (p) Func(o);
                    else
                        new (p) Func((const Func&)o);
                }
                drop(g_f[t][s]);
                g_f[t][s] = (Func*)p;
                want = g_want[t][d];
            } catch (Cancel&) {
                arena_free(p);
            } catch (std::bad_alloc&) {
                arena_free(p);
            }
            check(o, g_want[t][d], "a function copied from");
            break;
        }
        case MOVE: {
            if (d == s)
                break;
            Func& o = *g_f[t][d];
            try {
                {
                    Fragile fragile;
                    NoCopies none("a moved callable was");
                    f = std::move(o);
                }
                want = g_want[t][d];
                g_want[t][d] = kEmpty;
            } catch (Cancel&) {
                settle(f, want, "a function whose assignment failed");
            } catch (std::bad_alloc&) {
                settle(f, want, "a function whose assignment failed");
            }
            check(o, g_want[t][d], "a function moved from");
            break;
        }
        case MOVECTOR: {
            if (d == s)
                break;
            Func& o = *g_f[t][d];
            void* p = place();
            try {
                {
                    Fragile fragile;
                    NoCopies none("a moved callable was");
                    new (p) Func(std::move(o));
                }
                drop(g_f[t][s]);
                g_f[t][s] = (Func*)p;
                want = g_want[t][d];
                g_want[t][d] = kEmpty;
            } catch (Cancel&) {
                arena_free(p);
            } catch (std::bad_alloc&) {
                arena_free(p);
            }
            check(o, g_want[t][d], "a function moved from");
            break;
        }
        case CLEAR:
            f = nullptr;
            want = kEmpty;
            break;
        case SELFCOPY:
        case SELFMOVE: {
            Func& same = *g_f[t][s];
            probe("self-assign");
            try {
                Fragile fragile;
                if (code == SELFMOVE)
                    f = std::move(same);
                else if (op.c & 1)
                    f = same;
                else
                    f = (const Func&)same;
            } catch (Cancel&) {
                R.fragile[self()] = false;
                settle(f, want, "a function assigned to itself");
            } catch (std::bad_alloc&) {
                R.fragile[self()] = false;
                settle(f, want, "a function assigned to itself");
            }
            if (code == SELFMOVE && !f)
                want = kEmpty;  // (a value moved from)
            break;
        }
        case CALL: {
            if (want == kEmpty)
                break;
            Elem e(op.b);
            int64_t r;
            if (op.c & 1) {
                r = f(op.b * 7, e);
            } else {
                NoCopies none("a moved argument was");
                r = f(op.b * 7, std::move(e));
            }
            SIM_EXPECT(r == expected(want, op.b * 7, op.b), "call", "a call returned %ld instead of %ld", (long)r,
                       (long)expected(want, op.b * 7, op.b));
            SIM_EXPECT(e.get() == (op.c & 1 ? op.b : kMoved), "call", "an argument was %s", op.c & 1 ? "moved from" : "copied");
            break;
        }
        case SEND: {
            std::lock_guard<ke::Mutex> l(*g_lock);
            g_mail[m] = std::move(f);
            g_mwant[m] = want;
            want = kEmpty;
            break;
        }
        case RECV: {
            std::lock_guard<ke::Mutex> l(*g_lock);
            f = std::move(g_mail[m]);
            want = g_mwant[m];
            g_mwant[m] = kEmpty;
            if (want != kEmpty)
                probe("received");
            break;
        }
        case RUNMAIL: {
            std::lock_guard<ke::Mutex> l(*g_lock);
            check(g_mail[m], g_mwant[m], "a function handed over");
            break;
        }
        case SWAP:
            if (d == s)
                break;
            std::swap(f, *g_f[t][d]);
            {
                int64_t w = want;
                want = g_want[t][d];
                g_want[t][d] = w;
            }
            check(*g_f[t][d], g_want[t][d], "a swapped function");
            break;
        case INNER:
        case INNERMOVE: {
            // What the callable in the function owns becomes its callable.
            if (want == kEmpty)
                break;
            void*& part = g_part[self()];
            part = nullptr;
            f(kSeek, Elem(0));
            if (!part)
                break;
            bool nest = want >= kNest;
            probe(nest ? "inner-function" : "inner-callable");
            try {
                Fragile fragile;
                if (nest && code == INNERMOVE)
                    f = std::move(*(Func*)part);
                else if (nest && (op.c & 1))
                    f = *(Func*)part;
                else if (nest)
                    f = *(const Func*)part;
                else if (g_small[self()])
                    f = *(Small*)part;
                else
                    f = *(FrailBig*)part;
                if (nest)
                    want -= kNest;
            } catch (Cancel&) {
                R.fragile[self()] = false;
                settle(f, want, "a function whose assignment failed");
            } catch (std::bad_alloc&) {
                R.fragile[self()] = false;
                settle(f, want, "a function whose assignment failed");
            }
            break;
        }
    }
    check(*g_f[t][s], want, "a function");
}
static void run(const Program& p) {
    reg_reset();
    {
        Quiet q;
        g_next = 0;
        memset((void*)g_want, 0xff, sizeof(g_want));
        memset((void*)g_mwant, 0xff, sizeof(g_mwant));
    }
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    for (int t = 0; t < nt; t++)
        for (int s = 0; s < kSlots; s++)
            g_f[t][s] = new (place()) Func;
    g_mail = new Func[kMail];
    g_lock = new ke::Mutex;
    enable_fault(F_NEW);
    enable_fault(F_CANCEL);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int t = 0; t < nt; t++)
        for (int s = 0; s < kSlots; s++)
            drop(g_f[t][s]);
    for (int m = 0; m < kMail; m++)
        check(g_mail[m], g_mwant[m], "a function handed over");
    delete[] g_mail;
    delete g_lock;
    SIM_EXPECT(!live_elems(), "leak", "%zu callables were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(22);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)(r.below(4) ? r.below(NOPS) : r.below(3)), (int64_t)r.below(kSlots * kSlots), (int64_t)r.below(90), (int64_t)r.below(4)));
    }
}
SIM_SCENARIO(function, "function", gen, run);
}  // namespace scen_function
