// C12: FixedArray against a vector, with allocations that fail and sizes that overflow.
#include "item.h"

#include <amtl/am-fixedarray.h>

using namespace sim;
using namespace elems;

namespace scen_fixedarray {

const int kSlots = 4;
const int kMaxT = 3;

struct Slot {
    void* a;
    bool failed;
    std::vector<int64_t>* ref;
};
ORACLE Slot S[kMaxT][kSlots];
ORACLE Oint g_maxlen;
ORACLE Oint g_step;

struct Num {  // untracked, and garbage unless initialised
    int64_t v;
    explicit Num(int64_t n) : v(n) {}
    Num() = default;
    int64_t get() const {
        return v;
    }
    void set(int64_t n) {
        v = n;
    }
    bool operator==(const Num& o) const {
        return v == o.v;
    }
    bool operator!=(const Num& o) const {
        return v != o.v;
    }
};
struct Wide {  // larger than a page of small elements; sizes overflow sooner
    Elem e;
    char pad[120];
    explicit Wide(int64_t n) : e(n) {}
    Wide() {}
    int64_t get() const {
        return e.get();
    }
    void set(int64_t n) {
        e.set(n);
    }
    bool operator==(const Wide& o) const {
        return e == o.e;
    }
    bool operator!=(const Wide& o) const {
        return e != o.e;
    }
};
template <typename T>
struct Def {
    static constexpr int64_t v = kUnset;
};
template <>
struct Def<Num> {
    static constexpr int64_t v = 0;
};

template <typename T>
struct World {
    typedef ke::FixedArray<T, Pol> A;

    static A& arr(int t, int i) {
        return *(A*)S[t][i].a;
    }
    static void setref(int t, int i, const std::vector<int64_t>& v) {
        Quiet q;
        *S[t][i].ref = v;
    }
    static size_t reflen(int t, int i) {
        Quiet q;
        return S[t][i].ref->size();
    }
    static int64_t refat(int t, int i, size_t k) {
        Quiet q;
        return (*S[t][i].ref)[k];
    }
    // After an operation that filled slot i: initialize() tells whether it worked.
    static void settle(int t, int i, uint64_t r0, const char* what, bool src_failed = false) {
        bool ok = arr(t, i).initialize();
        int me = self();
        bool refused = R.refused[me] + R.overflows[me] != r0;
        SIM_EXPECT(ok || refused || src_failed, "spurious-failure", "%s failed although the policy refused nothing", what);
        S[t][i].failed = !ok;
        if (!ok) {
            probe("failed-array");
            return;
        }
        check(t, i, what);
    }
    static void check(int t, int i, const char* what) {
        if (S[t][i].failed) {
            SIM_EXPECT(!arr(t, i).initialize(), "array", "an array without memory claims to be initialised");
            return;
        }
        A& a = arr(t, i);
        const A& c = a;
        size_t n = reflen(t, i);
        SIM_EXPECT(a.initialize(), "array", "initialize() of a good array is false");
        SIM_EXPECT(a.size() == n, "array", "after %s: size() is %zu, not %zu", what, a.size(), n);
        SIM_EXPECT(a.empty() == (n == 0) && c.size() == n, "array", "empty() or size() is wrong");
        SIM_EXPECT((size_t)(a.end() - a.begin()) == n && (size_t)(c.end() - c.begin()) == n, "array", "end() - begin() is wrong");
        for (size_t k = 0; k < n; k++) {
            int64_t w = refat(t, i, k);
            int64_t g = k & 1 ? a[k].get() : c.at(k).get();
            SIM_EXPECT(g == w, "array", "after %s: element %zu is %lld, not %lld", what, k, (long long)g, (long long)w);
            const T* other = k % 4 == 0 ? &c[k] : k % 4 == 1 ? &a.at(k) : k % 4 == 2 ? c.begin() + k : a.buffer() + k;
            SIM_EXPECT(&a[k] == other && &c.at(k) == other, "array", "two ways to element %zu lead to different places", k);
        }
        size_t k = 0;
        for (auto& e : c) {
            SIM_EXPECT(e.get() == refat(t, i, k), "array", "iteration is wrong");
            k++;
        }
        if (n)
            SIM_EXPECT(a.back().get() == refat(t, i, n - 1) && c.back().get() == refat(t, i, n - 1), "array", "back() is wrong");
    }
    static void drop(int t, int i) {
        if (S[t][i].a)
            delete &arr(t, i);
        S[t][i].a = nullptr;
        S[t][i].failed = false;
        setref(t, i, {});
    }

    enum { SIZE, SIZE2, DEFAULT, COPY, MOVE, VEC, VECMOVE, ASSIGN, ASSIGN2, MASSIGN, MASSIGN2, WRITE, EQUAL, OVERFLOW_, DROP, SELF,
           NOPS };

    static void body(int t, const Op& op) {
        int i = clampi(op.a, kSlots), j = clampi(op.b, kSlots);
        try {
            operate(t, op, i, j);
        } catch (Cancel&) {
            // An array under construction is gone; one assigned to can still be used, whatever is left in it.
            probe(S[t][i].a ? "assign-cancelled" : "construction-cancelled");
            if (S[t][i].a) {
                A& a = arr(t, i);
                std::vector<int64_t>* now;
                SIM_EXPECT(a.initialize(), "array", "after a cancelled assignment the array claims to have no memory");
                {
                    Quiet q;
                    now = new std::vector<int64_t>;
                }
                for (size_t k = 0; k < a.size(); k++) {
                    int64_t v = a[k].get();
                    SIM_EXPECT((k < reflen(t, j) && v == refat(t, j, k)) || (k < reflen(t, i) && v == refat(t, i, k)), "array",
                               "after a cancelled assignment element %zu is %lld", k, (long long)v);
                    Quiet q;
                    now->push_back(v);
                }
                setref(t, i, *now);
                S[t][i].failed = false;
                Quiet q;
                delete now;
            }
            if (i != j && S[t][j].a)
                check(t, j, "a cancelled operation");
        }
    }
    static void operate(int t, const Op& op, int i, int j) {
        int code = clampi(op.code, NOPS);
        size_t n = clampi(op.c * (int)g_step, g_maxlen);
        int me = self();
        uint64_t r0 = R.refused[me] + R.overflows[me];
        switch (code) {
            case SIZE:
            case SIZE2: {
                drop(t, i);
                int pool;
                pool = R.npools++;
                {
                    Fragile f;
                    S[t][i].a = new A(n, Pol(pool));
                }
                {
                    Quiet q;
                    S[t][i].ref->assign(n, Def<T>::v);
                }
                settle(t, i, r0, "construction from a size");
                if (!S[t][i].failed && n)
                    SIM_EXPECT(R.bytes[pool] >= n * sizeof(T), "policy", "the memory is not from the policy given");
                if (S[t][i].failed)
                    SIM_EXPECT(!R.bytes[pool], "policy", "a failed array kept memory");
                break;
            }
            case DEFAULT:
                drop(t, i);
                S[t][i].a = new A;
                settle(t, i, r0, "default construction");
                break;
            case COPY:
                if (i == j || !S[t][j].a || S[t][j].failed)
                    break;
                drop(t, i);
                {
                    Fragile f;
                    S[t][i].a = new A(arr(t, j));
                }
                setref(t, i, *S[t][j].ref);
                settle(t, i, r0, "copy construction");
                check(t, j, "being copied");
                break;
            case MOVE:
                if (i == j || !S[t][j].a)
                    break;
                drop(t, i);
                {
                    NoCopies none("an element of a moved array was");
                    S[t][i].a = new A(std::move(arr(t, j)));
                }
                setref(t, i, *S[t][j].ref);
                settle(t, i, r0, "move construction", S[t][j].failed);
                SIM_EXPECT(S[t][i].failed == S[t][j].failed, "array", "a move changed whether the array is good");
                setref(t, j, {});
                S[t][j].failed = false;
                check(t, j, "being moved from");
                probe("move");
                break;
            case VEC:
            case VECMOVE: {
                drop(t, i);
                std::vector<T> v;
                v.reserve(n + 1);
                for (size_t k = 0; k < n; k++)
                    v.emplace_back(op.b * 100 + (int64_t)k);
                if (code == VEC) {
                    const std::vector<T>& cv = v;
                    {
                        Fragile f;
                        S[t][i].a = new A(cv);
                    }
                    SIM_EXPECT(v.size() == n, "array", "the source vector changed");
                    for (size_t k = 0; k < n; k++)
                        SIM_EXPECT(v[k].get() == op.b * 100 + (int64_t)k, "array", "the source vector changed");
                } else {
                    NoCopies none("an element of a vector moved in was");
                    Fragile f;
                    S[t][i].a = new A(std::move(v));
                }
                {
                    Quiet q;
                    for (size_t k = 0; k < n; k++)
                        S[t][i].ref->push_back(op.b * 100 + (int64_t)k);
                }
                settle(t, i, r0, "construction from a vector");
                break;
            }
            case ASSIGN:
            case ASSIGN2:
            case MASSIGN:
            case MASSIGN2:
                if (i == j || !S[t][i].a || !S[t][j].a)
                    break;
                if (code == ASSIGN || code == ASSIGN2) {
                    if (S[t][j].failed)
                        break;
                    if (S[t][i].failed)
                        probe("assign-to-failed");
                    A* r;
                    {
                        Fragile f;
                        r = &(arr(t, i) = arr(t, j));
                    }
                    SIM_EXPECT(r == &arr(t, i), "array", "operator= returns something else");
                    setref(t, i, *S[t][j].ref);
                    settle(t, i, r0, "assignment");
                    check(t, j, "being assigned from");
                } else {
                    NoCopies none("an element of a moved array was");
                    std::vector<int64_t>* old;
                    bool old_failed = S[t][i].failed;
                    {
                        Quiet q;
                        old = new std::vector<int64_t>(*S[t][i].ref);
                    }
                    A& r = arr(t, i) = std::move(arr(t, j));
                    SIM_EXPECT(&r == &arr(t, i), "array", "operator= returns something else");
                    setref(t, i, *S[t][j].ref);
                    settle(t, i, r0, "move assignment", S[t][j].failed);
                    SIM_EXPECT(S[t][i].failed == S[t][j].failed, "array", "a move changed whether the array is good");
                    // The array moved from may be empty, or have got what the other one held.
                    bool swapped = !arr(t, j).initialize() || arr(t, j).size();
                    if (swapped)
                        setref(t, j, *old);
                    else
                        setref(t, j, {});
                    S[t][j].failed = swapped && old_failed;
                    {
                        Quiet q;
                        delete old;
                    }
                    check(t, j, "being moved from");
                }
                break;
            case SELF:
                if (!S[t][i].a)
                    break;
                if (op.b & 1) {
                    A& o = arr(t, i);
                    arr(t, i) = std::move(o);
                } else if (!S[t][i].failed) {
                    A& o = arr(t, i);
                    arr(t, i) = o;
                }
                probe("self-assign");
                check(t, i, "assignment to itself");
                break;
            case WRITE:
                if (!S[t][i].a || S[t][i].failed)
                    break;
                for (size_t k = op.b & 1; k < reflen(t, i); k += 1 + (op.b & 3)) {
                    arr(t, i)[k].set(op.c + (int64_t)k);
                    Quiet q;
                    (*S[t][i].ref)[k] = op.c + (int64_t)k;
                }
                check(t, i, "writing");
                break;
            case EQUAL: {
                if (!S[t][i].a || !S[t][j].a || S[t][i].failed || S[t][j].failed)
                    break;
                if (i != j && (op.c & 1)) {
                    {
                        Fragile f;
                        arr(t, i) = arr(t, j);
                    }
                    setref(t, i, *S[t][j].ref);
                    settle(t, i, r0, "assignment");
                    if (S[t][i].failed)
                        break;
                    // Make them equal, or different in one place only.
                    size_t len = reflen(t, i);
                    size_t place = !len ? 0 : op.c & 4 ? (size_t)clampi(op.c >> 3, (int)len) : len - 1 - (size_t)clampi(op.c >> 3, (int)len);
                    for (size_t k = 0; k < len; k++) {
                        int64_t v = refat(t, j, k) + ((op.c & 2) && k == place ? 1 : 0);
                        arr(t, i)[k].set(v);
                        Quiet q;
                        (*S[t][i].ref)[k] = v;
                    }
                    probe("equal-length");
                }
                bool want;
                {
                    Quiet q;
                    want = *S[t][i].ref == *S[t][j].ref;
                }
                const A &x = arr(t, i), &y = arr(t, j);
                SIM_EXPECT((x == y) == want, "array", "operator== says %d", !want);
                SIM_EXPECT((x != y) == !want, "array", "operator!= says %d", want);
                break;
            }
            case OVERFLOW_: {
                drop(t, i);
                uint64_t a0 = R.allocs[me], f0 = R.refused[me], o0 = R.overflows[me];
                size_t lim = SIZE_MAX / sizeof(T);
                size_t sz = op.c & 1 ? lim + 1 + n : op.c & 2 ? SIZE_MAX - n : lim + 1 + (size_t)(op.c >> 2) * 12345;
                int pool = R.npools++;
                S[t][i].a = new A(sz, Pol(pool));
                SIM_EXPECT(R.overflows[me] == o0 + 1, "overflow", "the overflow was reported %llu times",
                           (unsigned long long)(R.overflows[me] - o0));
                SIM_EXPECT(R.allocs[me] == a0 && R.refused[me] == f0, "overflow", "an overflowing size was allocated");
                SIM_EXPECT(!arr(t, i).initialize(), "overflow", "an array with an overflowing size claims to be good");
                S[t][i].failed = true;
                break;
            }
            case DROP:
                drop(t, i);
                break;
        }
    }
    static void run(const Program& p) {
        int nt = 1 + clampi(p.p(1), kMaxT);
        bool large = clampi(p.p(2), 64) >= 60;
        g_maxlen = large ? 600 + 500 * clampi(p.p(2), 4) : 1 + clampi(p.p(2), 24);
        g_step = large ? 37 : 1;
        set_max_steps(4000000);
        reg_reset();
        R.pool0_ok = true;
        size_t base = live_blocks();
        for (auto& s : S)
            for (auto& x : s) {
                Quiet q;
                x.a = nullptr;
                x.failed = false;
                x.ref = new std::vector<int64_t>;
            }
        if (p.p(3))
            R.limit = (uint64_t)clampi(p.p(3), 10000) * (large ? 50 : 1);
        enable_fault(F_POLICY);
        enable_fault(F_CANCEL);
        enable_fault(F_STALL);
        run_threads(p, nt, body);
        disable_faults();
        set_no_preempt(true);
        for (int t = 0; t < nt; t++)
            for (int i = 0; i < kSlots; i++) {
                if (S[t][i].a)
                    check(t, i, "everything");
                drop(t, i);
            }
        SIM_EXPECT(R.total == 0, "leak", "%llu bytes were never given back", (unsigned long long)R.total);
        SIM_EXPECT(!live_elems(), "leak", "%zu elements were never destroyed", live_elems());
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
    }
};

void run(const Program& p) {
    switch (clampi(p.p(4), 4)) {
        case 0:
            World<Elem>::run(p);
            break;
        case 1:
            World<Num>::run(p);
            break;
        case 2:
            World<Wide>::run(p);
            break;
        case 3:
            World<UItem>::run(p);
            break;
    }
}
void gen(Rng& r, Program& p) {
    int nt = (int)r.below(3);
    p.params = {(int64_t)r.below(3), nt, r.chance(0.04) ? 60 + (int64_t)r.below(4) : (int64_t)r.below(24), r.chance(0.3) ? r.range(100, 5000) : 0, (int64_t)r.below(4)};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(16);
        if (r.chance(0.7))
            for (int i = 0; i < kSlots; i++)
                p.ops.push_back(mkop(t, r.chance(0.5) ? 0 : 5, i, (int64_t)r.below(8), (int64_t)r.below(64)));
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(16), (int64_t)r.below(4), (int64_t)r.below(8), (int64_t)r.below(64)));
    }
}
SIM_SCENARIO(fixedarray, "fixedarray", gen, run);
}  // namespace scen_fixedarray

// Arrays of tens of thousands of small elements.
namespace scen_fixedarray_big {
typedef ke::FixedArray<uint16_t, Pol> A;
const int kSlots = 3;
ORACLE A* g_a[kSlots];
ORACLE std::vector<uint16_t>* g_ref[kSlots];
ORACLE Obool g_failed[kSlots];

__attribute__((noinline)) bool same_ref(int i, int j) {
    Quiet q;
    return *g_ref[i] == *g_ref[j];
}
__attribute__((noinline)) size_t reflen(int i) {
    return g_ref[i]->size();
}
__attribute__((noinline)) uint16_t refat(int i, size_t k) {
    return (*g_ref[i])[k];
}
uint16_t value(int salt, size_t k) {
    return (uint16_t)(k * 7 + (k >> 16) + salt);
}
void check(int i, const char* what) {
    if (!g_a[i] || g_failed[i])
        return;
    const A& a = *g_a[i];
    size_t n = reflen(i);
    SIM_EXPECT(a.size() == n, "array", "after %s: size() is %zu, not %zu", what, a.size(), n);
    SIM_EXPECT((size_t)(a.end() - a.begin()) == n, "array", "end() - begin() is wrong");
    const uint16_t* p = a.buffer();
    for (size_t k = 0; k < n; k++)
        SIM_EXPECT(p[k] == refat(i, k), "array", "after %s: element %zu of %zu is %u, not %u", what, k, n, p[k], refat(i, k));
    if (n) {
        SIM_EXPECT(a.back() == refat(i, n - 1) && a.at(n - 1) == a.back() && &a[n - 1] == p + (n - 1), "array",
                   "the last element is wrong after %s", what);
        if (n > 65536)
            probe("array64k");
    }
}
void drop(int i) {
    delete g_a[i];
    g_a[i] = nullptr;
    g_failed[i] = false;
    Quiet q;
    g_ref[i]->clear();
}
void settle(int i, uint64_t r0, const char* what) {
    int me = self();
    g_failed[i] = !g_a[i]->initialize();
    SIM_EXPECT(!g_failed[i] || R.refused[me] != r0, "spurious-failure", "%s failed although the policy refused nothing", what);
    check(i, what);
}
enum { SIZE, VEC, COPY, ASSIGN, MOVE, EQUAL, EQUAL2, NOPS };

static void body(int, const Op& op) {
    static const size_t sizes[] = {255, 256, 257, 1000, 4096, 4097, 10000, 65535, 65536, 65537, 70001, 140000};
    int i = clampi(op.a, kSlots), j = clampi(op.b, kSlots), c = clampi(op.c, 4096);
    size_t n = sizes[c % 12];
    uint64_t r0 = R.refused[self()];
    switch (clampi(op.code, NOPS)) {
        case SIZE:
            drop(i);
            g_a[i] = new A(n, Pol(R.npools++));
            {
                Quiet q;
                g_ref[i]->assign(n, 0);
            }
            g_failed[i] = !g_a[i]->initialize();
            if (!g_failed[i]) // not yet set: the elements of a type like this have no value so far
                for (size_t k = 0; k < n; k++)
                    (*g_ref[i])[k] = (*g_a[i])[k] = value(c, k);
            settle(i, r0, "construction from a size");
            break;
        case VEC: {
            drop(i);
            {
                std::vector<uint16_t> v(n);
                for (size_t k = 0; k < n; k++)
                    v[k] = value(c, k);
                {
                    Quiet q;
                    *g_ref[i] = v;
                }
                if (c & 1)
                    g_a[i] = new A(v);
                else
                    g_a[i] = new A(std::move(v));
            }
            settle(i, r0, "construction from a vector");
            break;
        }
        case COPY:
        case MOVE:
        case ASSIGN: {
            if (i == j || !g_a[j] || g_failed[j])
                break;
            if (op.code == ASSIGN && !g_a[i])
                break;
            if (op.code != ASSIGN) {
                drop(i);
                g_a[i] = op.code == MOVE ? new A(std::move(*g_a[j])) : new A(*g_a[j]);
            } else if (c & 1) {
                *g_a[i] = *g_a[j];
            } else {
                *g_a[i] = std::move(*g_a[j]);
            }
            {
                Quiet q;
                *g_ref[i] = *g_ref[j];
            }
            settle(i, r0, op.code == MOVE ? "a move" : "a copy");
            if (op.code == MOVE || (op.code == ASSIGN && !(c & 1)))
                drop(j);
            else
                check(j, "being copied");
            break;
        }
        default: { // make them equal but for one place
            if (i == j || !g_a[j] || g_failed[j])
                break;
            drop(i);
            g_a[i] = new A(*g_a[j]);
            {
                Quiet q;
                *g_ref[i] = *g_ref[j];
            }
            settle(i, r0, "a copy");
            if (g_failed[i])
                break;
            size_t len = reflen(i);
            size_t at = c & 3 ? len - 1 - (c >> 2) % len : len * (size_t)(c >> 2) / 1024;
            if (c % 5)
                (*g_ref[i])[at] = (*g_a[i])[at] = (uint16_t)(refat(i, at) + 1);
            bool want = same_ref(i, j);
            SIM_EXPECT((*g_a[i] == *g_a[j]) == want && (*g_a[j] != *g_a[i]) == !want, "array",
                       "arrays of %zu elements that %s compare wrong", len, want ? "are the same" : "differ in one place");
            probe("big-equal");
            break;
        }
    }
}
void run(const Program& p) {
    set_max_steps(100000000);
    reg_reset();
    R.pool0_ok = true;
    size_t base = live_blocks();
    for (int i = 0; i < kSlots; i++) {
        Quiet q;
        g_a[i] = nullptr;
        g_failed[i] = false;
        g_ref[i] = new std::vector<uint16_t>;
    }
    enable_fault(F_POLICY);
    run_threads(p, 1, body);
    disable_faults();
    set_no_preempt(true);
    for (int i = 0; i < kSlots; i++) {
        check(i, "everything");
        drop(i);
    }
    SIM_EXPECT(R.total == 0, "leak", "%llu bytes were never given back", (unsigned long long)R.total);
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
void gen(Rng& r, Program& p) {
    p.params = {(int64_t)r.below(3)};
    int n = 3 + (int)r.below(5);
    int shape = r.chance(0.75) ? 7 : 12;
    p.ops.push_back(mkop(0, VEC, 0, 0, (int64_t)r.below(300) * 12 + (int64_t)r.below((uint64_t)shape)));
    for (int k = 0; k < n; k++)
        p.ops.push_back(mkop(0, (int)r.below(NOPS), (int64_t)r.below(kSlots), (int64_t)r.below(kSlots),
                             (int64_t)r.below(300) * 12 + (int64_t)r.below((uint64_t)shape)));
}
SIM_SCENARIO(fixedarray_big, "fixedarray_big", gen, run);
}  // namespace scen_fixedarray_big
