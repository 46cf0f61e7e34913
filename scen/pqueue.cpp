// C21: a ke::PriorityQueue gives back every element once, the most urgent ones first.
#include "item.h"

#include <amtl/am-mutex.h>
#include <amtl/am-priority-queue.h>

#include <mutex>

using namespace sim;
using namespace elems;

namespace elems {
const int64_t kSerial = 1000000;
static bool operator<(const Item& a, const Item& b) {
    return a.get() / kSerial < b.get() / kSerial;
}
}  // namespace elems

namespace scen_pqueue {

const int kMaxT = 4;
const int kQueues = 3;

// How urgent a value is; less is more urgent. Values of equal rank are interchangeable.
static int64_t rank_of(int64_t v, int mode) {
    int64_t p = v / kSerial;
    switch (mode) {
        case 1: return -p;
        case 2: return p < 8 ? 8 - p : p - 8;
        case 3: return 0;
        default: return p;
    }
}
struct Prefer {
    int mode = -1;
    Prefer() {}
    explicit Prefer(int m) : mode(m) {}
    bool operator()(const Item& a, const Item& b) const {
        if (mode < 0)
            violation("comparator", "the queue asks a comparator it was not given");
        return rank_of(a.get(), mode) < rank_of(b.get(), mode);
    }
};
typedef ke::PriorityQueue<Item, Prefer> Queue;
typedef ke::PriorityQueue<Item> Plain;

// What each queue should hold.
ORACLE std::multiset<int64_t>* g_model[kQueues + 1];
ORACLE std::multiset<int64_t>* g_ranks[kQueues + 1];  // the same elements, as ranks
ORACLE int g_mode[kQueues + 1];
ORACLE Queue* g_q[kQueues];
ORACLE Plain* g_plain;
ORACLE ke::Mutex* g_lock[kQueues + 1];
ORACLE Oi64 g_serial;
ORACLE Oint g_scale;
// A queue nobody changes.
ORACLE Queue* g_still;
ORACLE Oi64 g_still_rank;
ORACLE Obool g_still_empty;

__attribute__((noinline)) static void put(int q, int64_t v) {
    Quiet quiet;
    g_model[q]->insert(v);
    g_ranks[q]->insert(rank_of(v, g_mode[q]));
}
__attribute__((noinline)) static bool none(int q) {
    Quiet quiet;
    return g_model[q]->empty();
}
__attribute__((noinline)) static int64_t best(int q) {
    Quiet quiet;
    return g_ranks[q]->empty() ? INT64_MAX : *g_ranks[q]->begin();
}
__attribute__((noinline)) static bool has(int q, int64_t v) {
    Quiet quiet;
    return g_model[q]->count(v) != 0;
}
__attribute__((noinline)) static bool take(int q, int64_t v) {
    Quiet quiet;
    auto i = g_model[q]->find(v);
    if (i == g_model[q]->end())
        return false;
    g_model[q]->erase(i);
    g_ranks[q]->erase(g_ranks[q]->find(rank_of(v, g_mode[q])));
    return true;
}
template <typename Q>
static void look(Q& queue, int q) {
    const Q& c = queue;
    SIM_EXPECT(c.empty() == none(q), "empty", "a queue that is %sempty says otherwise", none(q) ? "" : "not ");
    if (c.empty())
        return;
    int64_t v = c.peek().get();
    SIM_EXPECT(has(q, v), "peek", "peek shows %ld, which is not in the queue", (long)v);
    SIM_EXPECT(rank_of(v, g_mode[q]) == best(q), "order", "peek shows %ld although a more urgent element is there", (long)v);
}
template <typename Q>
static void pop(Q& queue, int q) {
    int64_t want = best(q);
    int64_t v;
    {
        NoCopies none("an element popped was");
        Item item = queue.pop();
        v = item.get();
    }
    SIM_EXPECT(has(q, v), "conserve", "%ld was popped, which is not in the queue", (long)v);
    SIM_EXPECT(rank_of(v, g_mode[q]) == want, "order", "%ld was popped although a more urgent element is there", (long)v);
    take(q, v);
    probe("popped");
}

enum { ADDCOPY, ADDMOVE, EMPLACE, ADDMANY, POP, POPMANY, LOOK, STILL, NEWQUEUE, DRAINTO, DEFAULTED, NOPS };

template <typename Q>
static void step(Q& queue, int q, const Op& op) {
    int code = clampi(op.code, NOPS);
    int64_t v = clampi(op.b, 16) * kSerial + ++g_serial;
    bool known = false;
    try {
        switch (code) {
            case ADDCOPY: {
                Item x(v);
                {
                    Fragile fragile;
                    queue.add(x);
                }
                put(q, v);
                known = true;
                SIM_EXPECT(x.get() == v, "copy", "adding an element took it from its owner");
                break;
            }
            case ADDMOVE:
            case DEFAULTED: {
                Item x(v);
                {
                    NoCopies none("an element added by moving was");
                    queue.add(std::move(x));
                }
                put(q, v);
                break;
            }
            case EMPLACE: {
                Fragile fragile;
                queue.emplace(v);
                put(q, v);
                break;
            }
            case ADDMANY:
                for (int k = clampi(op.c, 12) * g_scale; k >= 0; k--) {
                    v = clampi(op.b + k * 5, 16) * kSerial + ++g_serial;
                    queue.emplace(v);
                    put(q, v);
                }
                break;
            case POP:
                if (!none(q))
                    pop(queue, q);
                break;
            case POPMANY:
                for (int k = clampi(op.c, 12) * g_scale; k >= 0 && !none(q); k--)
                    pop(queue, q);
                break;
        }
    } catch (Cancel&) {
        SIM_EXPECT(!known, "failure", "adding an element both succeeded and failed");
        probe("cancelled-add");
    } catch (std::bad_alloc&) {
        SIM_EXPECT(!known, "failure", "adding an element both succeeded and failed");
        probe("bad-alloc");
    }
    look(queue, q);
}
static void body(int t, const Op& op) {
    crash_point();
    int q = clampi(op.a, kQueues + 1), code = clampi(op.code, NOPS);
    if (code == STILL) {
        // Without a lock.
        const Queue& c = *g_still;
        SIM_EXPECT(c.empty() == g_still_empty, "empty", "a queue nobody changes changed");
        if (!c.empty())
            SIM_EXPECT(rank_of(c.peek().get(), 0) == g_still_rank, "peek", "a queue nobody changes changed");
        probe("unlocked-peek");
        return;
    }
    if (q == kQueues) {
        std::lock_guard<ke::Mutex> l(*g_lock[q]);
        step(*g_plain, q, op);
        return;
    }
    if (code == NEWQUEUE) {
        std::lock_guard<ke::Mutex> l(*g_lock[q]);
        void* p = arena_alloc(sizeof(Queue));
        if (!p)
            violation("harness", "simulated heap exhausted");
        Queue* n;
        {
            NoCopies none("an element of a moved queue was");
            n = new (p) Queue(std::move(*g_q[q]));
        }
        g_q[q]->~Queue();
        arena_free(g_q[q]);
        g_q[q] = n;
        probe("moved");
        look(*g_q[q], q);
        return;
    }
    if (code == DRAINTO) {
        int d = clampi(op.b, kQueues);
        if (d == q)
            return;
        int lo = q < d ? q : d, hi = q < d ? d : q;
        std::lock_guard<ke::Mutex> l1(*g_lock[lo]);
        std::lock_guard<ke::Mutex> l2(*g_lock[hi]);
        while (!none(q)) {
            int64_t want = best(q);
            Item item = g_q[q]->pop();
            int64_t v = item.get();
            SIM_EXPECT(take(q, v), "conserve", "%ld was popped, which is not in the queue", (long)v);
            SIM_EXPECT(rank_of(v, g_mode[q]) == want, "order", "%ld was popped although a more urgent element is there", (long)v);
            try {
                g_q[d]->add(std::move(item));
                put(d, v);
            } catch (std::bad_alloc&) {
                // The element is still here.
                SIM_EXPECT(item.get() == v, "conserve", "adding an element failed, and the element is gone");
                probe("bad-alloc");
                break;
            }
        }
        look(*g_q[q], q);
        look(*g_q[d], d);
        return;
    }
    std::lock_guard<ke::Mutex> l(*g_lock[q]);
    step(*g_q[q], q, op);
}
template <typename Q>
static void empty_out(Q& queue, int q, bool pops) {
    look(queue, q);
    while (pops && !none(q))
        pop(queue, q);
    look(queue, q);
}
static void run(const Program& p) {
    reg_reset();
    {
        Quiet quiet;
        g_serial = 0;
        g_scale = 1 + clampi(p.p(7), 24);
        for (int q = 0; q <= kQueues; q++) {
            g_model[q] = new std::multiset<int64_t>;
            g_ranks[q] = new std::multiset<int64_t>;
            g_mode[q] = q == kQueues ? 0 : clampi(p.p(2 + q), 4);
        }
    }
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(4000000);
    for (int q = 0; q < kQueues; q++) {
        void* at = arena_alloc(sizeof(Queue));
        g_q[q] = new (at) Queue(Prefer(g_mode[q]));
    }
    g_plain = new Plain;
    for (int q = 0; q <= kQueues; q++)
        g_lock[q] = new ke::Mutex;
    g_still = new Queue(Prefer(0));
    int n = clampi(p.p(5), 9);
    g_still_empty = n == 0;
    g_still_rank = INT64_MAX;
    for (int k = 0; k < n; k++) {
        int64_t v = (k * 5 + 3) % 11;
        if (v < g_still_rank)
            g_still_rank = v;
        g_still->emplace(v * kSerial);
    }
    enable_fault(F_NEW);
    enable_fault(F_CANCEL);
    enable_fault(F_CRASH);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    bool dead = false;
    for (int t = 1; t <= nt; t++)
        dead |= crashed(t);
    // (What a dead thread did outside of the locks is not ordered before us.)
    for (int q = 0; q <= kQueues; q++)
        g_lock[q]->lock();
    for (int q = 0; q < kQueues; q++) {
        empty_out(*g_q[q], q, p.p(6) & (1 << q));
        g_q[q]->~Queue();
        arena_free(g_q[q]);
    }
    empty_out(*g_plain, kQueues, true);
    delete g_plain;
    if (dead) {
        probe("crash");
        return;
    }
    delete g_still;
    for (int q = 0; q <= kQueues; q++) {
        g_lock[q]->unlock();
        delete g_lock[q];
    }
    SIM_EXPECT(!live_elems(), "leak", "%zu elements were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(4), (int64_t)r.below(4), (int64_t)r.below(4), (int64_t)r.below(9), (int64_t)r.below(8),
                r.chance(0.04) ? 5 + (int64_t)r.below(19) : 0};
    int hot = (int)r.below(kQueues + 1);
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(18);
        for (int k = 0; k < n; k++) {
            int code = (int)(r.below(3) ? r.below(NOPS) : (r.below(2) ? ADDMANY : POP));
            int q = r.below(3) ? hot : (int)r.below(kQueues + 1);
            p.ops.push_back(mkop(t, code, q, (int64_t)r.below(16), (int64_t)r.below(24)));
        }
    }
}
SIM_SCENARIO(pqueue, "pqueue", gen, run);
}  // namespace scen_pqueue

// Queues of tens of thousands of plain numbers.
namespace scen_pqueue_big {
typedef ke::PriorityQueue<uint32_t, std::greater<uint32_t>> Queue;

ORACLE Queue* g_q;
ORACLE std::map<uint32_t, uint32_t>* g_ref;  // how often each value is there
ORACLE Oi64 g_n;
ORACLE Oint g_total;

__attribute__((noinline)) static void put(uint32_t v) {
    Quiet q;
    (*g_ref)[v]++;
    g_n++;
}
__attribute__((noinline)) static uint32_t most() {
    return g_ref->empty() ? 0 : g_ref->rbegin()->first;
}
__attribute__((noinline)) static bool take(uint32_t v) {
    Quiet q;
    auto i = g_ref->find(v);
    if (i == g_ref->end())
        return false;
    if (!--i->second)
        g_ref->erase(i);
    g_n--;
    return true;
}
static void pop() {
    uint32_t want = most();
    SIM_EXPECT(g_q->peek() == want, "order", "peek() of %lld elements shows %u, not %u", (long long)g_n, g_q->peek(), want);
    uint32_t v = g_q->pop();
    SIM_EXPECT(v == want, "order", "%u was popped of %lld elements, although there is %u", v, (long long)g_n, want);
    SIM_EXPECT(take(v), "conserve", "%u was popped, which is not in the queue", v);
    SIM_EXPECT(g_q->empty() == (g_n == 0), "empty", "empty() is wrong");
}
enum { ADD, ADD2, POP, REFILL, MOVE, NOPS };
static void body(int, const Op& op) {
    int64_t n = (op.a & 0xffff) * g_total / 0x10000;
    int c = clampi(op.c, 64);
    switch (clampi(op.code, NOPS)) {
        case ADD:
        case ADD2:
            for (int64_t k = 0; k < n && g_n < 140000; k++) {
                uint32_t x = (uint32_t)k;
                uint32_t v = c % 4 == 0 ? x : c % 4 == 1 ? (uint32_t)n - x : c % 4 == 2 ? x * 2654435761u : (x * 2654435761u) >> 24;
                try {
                    if (c & 4)
                        g_q->add(v);
                    else
                        g_q->emplace(v);
                } catch (std::bad_alloc&) {
                    probe("bad-alloc");
                    break;
                }
                put(v);
            }
            break;
        case POP:
            for (int64_t k = 0; k < n && k < 20000 && g_n; k++)
                pop();
            break;
        case REFILL: // one out, one in
            for (int64_t k = 0; k < n / 2 && k < 10000 && g_n; k++) {
                pop();
                uint32_t v = (uint32_t)k * 40503u;
                try {
                    g_q->add(v);
                } catch (std::bad_alloc&) {
                    break;
                }
                put(v);
            }
            break;
        case MOVE: {
            Queue* q = new (arena_alloc(sizeof(Queue))) Queue(std::move(*g_q));
            g_q->~Queue();
            arena_free(g_q);
            g_q = q;
            break;
        }
    }
    if (g_n > 131072)
        probe("queue128k");
    SIM_EXPECT(g_q->empty() == (g_n == 0), "empty", "empty() is wrong");
}
static void run(const Program& p) {
    set_max_steps(200000000);
    reg_reset();
    size_t base = live_blocks();
    g_n = 0;
    static const int totals[] = {600, 4000, 20000, 140000};
    g_total = totals[clampi(p.p(1), 4)];
    {
        Quiet q;
        g_ref = new std::map<uint32_t, uint32_t>;
    }
    g_q = new (arena_alloc(sizeof(Queue))) Queue;
    enable_fault(F_NEW);
    run_threads(p, 1, body);
    disable_faults();
    set_no_preempt(true);
    for (int k = 0; (k < 25000 || p.p(2) & 1) && g_n; k++)
        pop();
    g_q->~Queue();
    arena_free(g_q);
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    uint64_t d = r.below(100);
    p.params = {(int64_t)r.below(3), d < 60 ? 0 : d < 85 ? 1 : d < 93 ? 2 : 3, (int64_t)r.below(2)};
    int n = 1 + (int)r.below(d < 93 ? 7 : 2);
    p.ops.push_back(mkop(0, ADD, 0xffff, 0, (int64_t)r.below(64)));
    for (int k = 0; k < n; k++)
        p.ops.push_back(mkop(0, (int)r.below(NOPS), (int64_t)r.below(0x10000), 0, (int64_t)r.below(64)));
}
SIM_SCENARIO(pqueue_big, "pqueue_big", gen, run);
}  // namespace scen_pqueue_big
