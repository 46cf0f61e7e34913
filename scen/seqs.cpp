// C23: the vector and deque helpers keep every element, in order, even when they fail.
#include "item.h"

#include <algorithm>

#include <amtl/am-deque.h>
#include <amtl/am-mutex.h>
#include <amtl/am-vector.h>

#include <mutex>

using namespace sim;
using namespace elems;

namespace scen_seqs {

const int kMaxT = 4;
const int kShared = 2;   // guarded by locks
const int kOwn = 2;      // per thread
const int kVecs = kShared + kMaxT * kOwn;
const int kDeqs = 2;     // guarded by the locks, too

typedef std::vector<Item> Vec;
typedef std::deque<Elem> Deq;  // (its move constructor may throw, as far as the compiler knows)
typedef std::vector<int64_t> Model;

ORACLE Vec* g_v[kVecs];
ORACLE Deq* g_d[kDeqs];
ORACLE Model* g_m[kVecs + kDeqs];  // deques behind the vectors
ORACLE ke::Mutex* g_lock[kShared];
ORACLE Oi64 g_serial;
ORACLE Oint g_scale;

template <typename S>
static std::vector<int64_t>* contents(S& s) {
    Model* r;
    {
        Quiet q;
        r = new Model;
    }
    for (const auto& e : s) {
        int64_t v = e.get();
        Quiet q;
        r->push_back(v);
    }
    return r;
}
__attribute__((noinline)) static std::string text(const Model& m) {
    Quiet q;
    std::string r;
    for (int64_t v : m)
        r += (r.empty() ? "" : " ") + (v == kMoved ? std::string("moved") : std::to_string(v));
    return "[" + r + "]";
}
template <typename S>
static void check(S& s, int m, const char* what) {
    Model* now = contents(s);
    Quiet q;
    if (*now != *g_m[m])
        violation("contents", "%s has %s instead of %s", what, text(*now).c_str(), text(*g_m[m]).c_str());
    delete now;
}
__attribute__((noinline)) static size_t size_of(int m) {
    Quiet q;
    return g_m[m]->size();
}
__attribute__((noinline)) static int64_t m_pop(int m, bool front) {
    Quiet q;
    int64_t v = front ? g_m[m]->front() : g_m[m]->back();
    g_m[m]->erase(front ? g_m[m]->begin() : g_m[m]->end() - 1);
    return v;
}
__attribute__((noinline)) static void m_insert(int m, size_t at, int64_t v) {
    Quiet q;
    g_m[m]->insert(g_m[m]->begin() + at, v);
}
__attribute__((noinline)) static void m_erase(int m, size_t at) {
    Quiet q;
    g_m[m]->erase(g_m[m]->begin() + at);
}
__attribute__((noinline)) static int64_t m_at(int m, size_t at) {
    Quiet q;
    return (*g_m[m])[at];
}
static bool victim(int64_t v, int64_t b) {
    return (((uint64_t)v * 2654435761u) >> 7) % 4 < (uint64_t)(b & 3);
}
__attribute__((noinline)) static void m_erase_if(int m, int64_t b) {
    Quiet q;
    Model n;
    for (int64_t v : *g_m[m]) {
        if (!victim(v, b))
            n.push_back(v);
    }
    *g_m[m] = n;
}
__attribute__((noinline)) static void m_extend(int d, int s) {
    Quiet q;
    g_m[d]->insert(g_m[d]->end(), g_m[s]->begin(), g_m[s]->end());
    g_m[s]->clear();
}

// An extension failed half-way: |d| has what it had and some of what |s| had, and |s| the rest, in order
// (behind or between the husks of what it lost).
static void half_way(int d, int s) {
    Model* dest = contents(*g_v[d]);
    Model* src = contents(*g_v[s]);
    {
        Quiet q;
        size_t n = g_m[d]->size();
        Model rest;
        bool ok = dest->size() >= n && std::equal(g_m[d]->begin(), g_m[d]->end(), dest->begin());
        if (ok) {
            for (size_t i = n; i < dest->size(); i++)
                rest.push_back((*dest)[i]);
            for (int64_t v : *src) {
                if (v != kMoved)
                    rest.push_back(v);
            }
            ok = rest == *g_m[s];
        }
        if (!ok)
            violation("conserve", "a failed MoveExtend of %s with %s left %s and %s", text(*g_m[d]).c_str(),
                      text(*g_m[s]).c_str(), text(*dest).c_str(), text(*src).c_str());
        *g_m[d] = *dest;
        g_m[s]->clear();
        for (int64_t v : *src) {
            if (v != kMoved)
                g_m[s]->push_back(v);
        }
        delete dest;
        delete src;
    }
    // Drop the husks.
    Vec& v = *g_v[s];
    for (size_t i = 0; i < v.size();) {
        if (v[i].get() == kMoved)
            v.erase(v.begin() + i);
        else
            i++;
    }
    probe("half-way");
}

enum { PUSH, PUSHMANY, EXTEND, EXTEND2, POPBACK, REMOVEAT, INSERTCOPY, INSERTALIAS, INSERTMOVE, EMPLACE, EMPLACEALIAS, ERASEIF, DPUSH, DPOPBACK, DPOPFRONT, RESERVE, SLOPPY, PLAIN, NOPS };

static void on_vec(int i, const Op& op, int64_t v) {
    Vec& vec = *g_v[i];
    size_t n = size_of(i);
    size_t at = clampi(op.c, (int)n + 1);
    bool done = false;
    try {
        switch (clampi(op.code, NOPS)) {
            case PUSH:
                vec.emplace_back(v);
                m_insert(i, n, v);
                break;
            case PUSHMANY:
                for (int k = clampi(op.c, 8) * g_scale; k >= 0; k--) {
                    v = ++g_serial;
                    vec.emplace_back(v);
                    m_insert(i, size_of(i), v);
                }
                break;
            case RESERVE:
                if (op.c & 1)
                    vec.shrink_to_fit();
                else
                    vec.reserve(n + clampi(op.c, 6));
                break;
            case POPBACK: {
                if (!n)
                    break;
                NoCopies none("an element popped was");
                Item x = ke::PopBack(&vec);
                SIM_EXPECT(x.get() == m_pop(i, false), "pop", "PopBack returned %ld", (long)x.get());
                break;
            }
            case REMOVEAT: {
                if (!n)
                    break;
                NoCopies none("an element of a vector was");
                ke::RemoveAt(&vec, at % n);
                m_erase(i, at % n);
                break;
            }
            case INSERTCOPY: {
                const Item x(v);
                {
                    Fragile fragile;
                    ke::InsertAt(&vec, at, x);
                }
                done = true;
                m_insert(i, at, v);
                SIM_EXPECT(x.get() == v, "copy", "inserting a copy changed the original");
                break;
            }
            case INSERTALIAS: {
                if (!n)
                    break;
                size_t from = clampi(op.b, (int)n);
                v = m_at(i, from);
                {
                    Fragile fragile;
                    const Item& x = vec[from];
                    ke::InsertAt(&vec, at, x);
                }
                done = true;
                m_insert(i, at, v);
                probe("alias");
                break;
            }
            case INSERTMOVE: {
                NoCopies none("an element moved in was");
                if (op.b & 1)
                    ke::EmplaceAt(&vec, at, Item(v));
                else
                    ke::InsertAt(&vec, at, Item(v));
                m_insert(i, at, v);
                break;
            }
            case EMPLACE: {
                Fragile fragile;
                ke::EmplaceAt(&vec, at, v);
                done = true;
                m_insert(i, at, v);
                break;
            }
            case EMPLACEALIAS: {
                if (!n)
                    break;
                size_t from = clampi(op.b, (int)n);
                v = m_at(i, from);
                {
                    Fragile fragile;
                    ke::EmplaceAt(&vec, at, (const Item&)vec[from]);
                }
                done = true;
                m_insert(i, at, v);
                probe("alias");
                break;
            }
            case ERASEIF: {
                int64_t b = op.b;
                NoCopies none("an element of a vector was");
                ke::EraseIf(&vec, [b](const Item& x) { return victim(x.get(), b); });
                m_erase_if(i, b);
                break;
            }
        }
    } catch (Cancel&) {
        SIM_EXPECT(!done, "failure", "an insertion both succeeded and failed");
        probe("cancelled-insert");
    } catch (std::bad_alloc&) {
        SIM_EXPECT(!done, "failure", "an insertion both succeeded and failed");
        probe("bad-alloc");
    }
    check(vec, i, "a vector");
}
static void on_deq(int i, const Op& op, int64_t v) {
    Deq& deq = *g_d[i];
    int m = kVecs + i;
    try {
        switch (clampi(op.code, NOPS)) {
            case DPUSH:
                for (int k = clampi(op.c, 40) * g_scale; k >= 0; k--) {
                    v = ++g_serial;
                    if (op.b & 1) {
                        deq.emplace_back(v);
                        m_insert(m, size_of(m), v);
                    } else {
                        deq.emplace_front(v);
                        m_insert(m, 0, v);
                    }
                }
                break;
            case DPOPBACK:
            case DPOPFRONT:
                for (int k = clampi(op.c, 24) * g_scale; k >= 0 && size_of(m); k--) {
                    bool front = clampi(op.code, NOPS) == DPOPFRONT;
                    NoCopies none("an element popped was");
                    Elem x = front ? ke::PopFront(&deq) : ke::PopBack(&deq);
                    int64_t want = m_pop(m, front);
                    SIM_EXPECT(x.get() == want, "pop", "Pop%s returned %ld instead of %ld", front ? "Front" : "Back",
                               (long)x.get(), (long)want);
                    probe("deque-popped");
                }
                break;
        }
    } catch (std::bad_alloc&) {
        probe("bad-alloc");
    }
    check(deq, m, "a deque");
}
// A vector of elements that can be copied, and whose moves are not said to be safe: what does not
// grow has no reason to copy any.
static void on_sloppy(const Op& op) {
    std::vector<Elem> vec;
    Model* m;
    {
        Quiet q;
        m = new Model;
    }
    try {
        size_t n = 1 + clampi(op.a, 12);
        vec.reserve(n);
        NoCopies none("an element of a vector was");
        for (size_t k = 0; k < n; k++) {
            vec.emplace_back((int64_t)(op.b + k));
            Quiet q;
            m->push_back(op.b + k);
        }
        for (int k = clampi(op.c, 6); k >= 0 && !vec.empty(); k--) {
            size_t size, at;
            {
                Quiet q;
                size = m->size();
                at = clampi(op.c + k, (int)size);
            }
            switch (clampi(op.b + k, 5)) {
                case 0:
                case 1: {
                    int64_t want;
                    {
                        Quiet q;
                        want = m->back();
                        m->pop_back();
                    }
                    Elem x = ke::PopBack(&vec);
                    SIM_EXPECT(x.get() == want, "pop", "PopBack returned %ld", (long)x.get());
                    break;
                }
                case 2:
                    ke::RemoveAt(&vec, at);
                    {
                        Quiet q;
                        m->erase(m->begin() + at);
                    }
                    break;
                case 3: {
                    int64_t b = op.a;
                    ke::EraseIf(&vec, [b](const Elem& x) { return victim(x.get(), b); });
                    Quiet q;
                    m->erase(std::remove_if(m->begin(), m->end(), [b](int64_t x) { return victim(x, b); }), m->end());
                    break;
                }
                case 4: {
                    ke::RemoveAt(&vec, at);
                    ke::InsertAt(&vec, at, Elem(int64_t(777 + k)));
                    Quiet q;
                    (*m)[at] = 777 + k;
                    break;
                }
            }
            Model* now = contents(vec);
            Quiet q;
            if (*now != *m)
                violation("contents", "a vector has %s instead of %s", text(*now).c_str(), text(*m).c_str());
            delete now;
        }
        probe("sloppy");
    } catch (std::bad_alloc&) {
        probe("bad-alloc");
    }
    Quiet q;
    delete m;
}
// Numbers by the ten thousand, which nobody else sees.
static void on_plain(const Op& op) {
    static const int sizes[] = {255, 256, 257, 1000, 4097, 32768, 65535, 65536, 65537, 70001, 140000};
    int n1 = sizes[clampi(op.a * 5 + op.b, 11)], n2 = sizes[clampi(op.b * 3 + op.c, 11)];
    typedef std::vector<uint32_t> V;
    V* m;
    {
        Quiet q;
        m = new V;
    }
    try {
        V a, b;
        for (int k = 0; k < n1; k++)
            a.push_back((uint32_t)k * 7);
        for (int k = 0; k < n2; k++)
            b.push_back((uint32_t)k * 7 + 1);
        {
            Quiet q;
            *m = a;
            m->insert(m->end(), b.begin(), b.end());
        }
        try {
            ke::MoveExtend(&a, &b);
        } catch (std::bad_alloc&) {
            Quiet q;
            delete m;
            return;
        }
        SIM_EXPECT(b.empty(), "contents", "%zu elements are left in a vector of %d that another was extended with", b.size(), n2);
        for (int k = 0; k < 4; k++) {
            size_t len = a.size();
            size_t at = k & 1 ? len - 1 - (size_t)clampi(op.c, 100) : (size_t)((uint64_t)len * (uint64_t)clampi(op.c + k * 13, 64) / 64);
            switch (clampi(op.b + k, 4)) {
                case 0: {
                    ke::RemoveAt(&a, at);
                    Quiet q;
                    m->erase(m->begin() + at);
                    break;
                }
                case 1: {
                    ke::InsertAt(&a, at, (uint32_t)k + 5);
                    Quiet q;
                    m->insert(m->begin() + at, (uint32_t)k + 5);
                    break;
                }
                case 2: {
                    ke::EmplaceAt(&a, at, (uint32_t)k + 6);
                    Quiet q;
                    m->insert(m->begin() + at, (uint32_t)k + 6);
                    break;
                }
                case 3: {
                    uint32_t d = 3 + (uint32_t)k;
                    ke::EraseIf(&a, [d](uint32_t x) { return x % d == 0; });
                    Quiet q;
                    m->erase(std::remove_if(m->begin(), m->end(), [d](uint32_t x) { return x % d == 0; }), m->end());
                    break;
                }
            }
        }
        SIM_EXPECT(a.size() == m->size(), "contents", "a vector has %zu elements instead of %zu", a.size(), m->size());
        {
            Quiet q;
            for (size_t k = 0; k < m->size(); k++)
                if (a[k] != (*m)[k])
                    violation("contents", "element %zu of %zu is %u, not %u", k, m->size(), a[k], (*m)[k]);
        }
        uint32_t last = ke::PopBack(&a);
        SIM_EXPECT(last == m->back() && a.size() + 1 == m->size(), "contents", "PopBack() of %zu elements is wrong", m->size());
        probe("plain");
    } catch (std::bad_alloc&) {
        probe("bad-alloc");
    }
    Quiet q;
    delete m;
}
// Vectors a thread may use: the shared ones, and its own.
static int vec_of(int t, int64_t a) {
    int k = clampi(a, kShared + kOwn);
    return k < kShared ? k : kShared + t * kOwn + (k - kShared);
}
static void body(int t, const Op& op) {
    crash_point();
    int code = clampi(op.code, NOPS);
    int64_t v = ++g_serial;
    int i = vec_of(t, op.a);
    if (code == SLOPPY) {
        on_sloppy(op);
        return;
    }
    if (code == PLAIN) {
        on_plain(op);
        return;
    }
    if (code == DPUSH || code == DPOPBACK || code == DPOPFRONT) {
        int d = clampi(op.a, kDeqs);
        std::lock_guard<ke::Mutex> l(*g_lock[d]);
        on_deq(d, op, v);
        return;
    }
    if (code == EXTEND || code == EXTEND2) {
        int j = vec_of(t, op.b);
        if (i == j)
            return;
        std::unique_lock<ke::Mutex> l1, l2;
        if (i < kShared || j < kShared)
            l1 = std::unique_lock<ke::Mutex>(*g_lock[i < j ? i : j]);
        if (i < kShared && j < kShared)
            l2 = std::unique_lock<ke::Mutex>(*g_lock[i < j ? j : i]);
        size_t n = size_of(i);
        try {
            NoCopies none("an element moved was");
            ke::MoveExtend(g_v[i], g_v[j]);
            m_extend(i, j);
            probe(n ? "extended" : "handed-over");
        } catch (std::bad_alloc&) {
            half_way(i, j);
        }
        check(*g_v[i], i, "a vector extended");
        check(*g_v[j], j, "a vector moved from");
        return;
    }
    std::unique_lock<ke::Mutex> l;
    if (i < kShared)
        l = std::unique_lock<ke::Mutex>(*g_lock[i]);
    on_vec(i, op, v);
}
static void run(const Program& p) {
    reg_reset();
    {
        Quiet q;
        g_serial = 0;
        g_scale = 1 + clampi(p.p(2), 16);
        for (Model*& m : g_m)
            m = new Model;
    }
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(40000000);
    for (Vec*& v : g_v)
        v = new Vec;
    for (Deq*& d : g_d)
        d = new Deq;
    for (ke::Mutex*& l : g_lock)
        l = new ke::Mutex;
    enable_fault(F_NEW);
    enable_fault(F_CANCEL);
    enable_fault(F_CRASH);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    bool dead = false;
    for (int t = 1; t <= nt; t++)
        dead |= crashed(t);
    for (ke::Mutex* l : g_lock)
        l->lock();
    for (int i = 0; i < kVecs; i++) {
        if (i >= kShared && dead)
            break;  // (nobody's any more)
        check(*g_v[i], i, "a vector");
        delete g_v[i];
    }
    for (int i = 0; i < kDeqs; i++) {
        check(*g_d[i], kVecs + i, "a deque");
        delete g_d[i];
    }
    if (dead) {
        probe("crash");
        return;
    }
    for (ke::Mutex* l : g_lock) {
        l->unlock();
        delete l;
    }
    SIM_EXPECT(!live_elems(), "leak", "%zu elements were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, r.chance(0.04) ? 3 + (int64_t)r.below(13) : 0};
    int span = p.params[2] ? 200 : 40;
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(20);
        for (int k = 0; k < n; k++) {
            int code = (int)(r.below(4) ? r.below(NOPS - 1) : (r.below(2) ? PUSHMANY : EXTEND));
            if (r.chance(0.002))
                code = PLAIN;
            p.ops.push_back(mkop(t, code, (int64_t)r.below(4), (int64_t)r.below(p.params[2] ? 100 : 16), (int64_t)r.below(span)));
        }
    }
}
SIM_SCENARIO(seqs, "seqs", gen, run);
}  // namespace scen_seqs
