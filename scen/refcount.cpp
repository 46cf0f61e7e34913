// C01, C02: thread-safe reference counts.
//
// Threads own references to shared objects and add, release, use and hand over references in any
// interleaving; threads may die at any point holding references. Oracle: a table of how many
// references exist that nobody has begun to release.
#include "common.h"

#include <atomic>
#include <mutex>
#include <thread>

#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>

using namespace sim;

namespace scen_refcount {

const int kMaxObj = 3;
const int kMaxThreads = 5;

struct Model {
    Oi64 unreleased[kMaxObj]; // references whose Release() has not been called yet
    Oint destroyed[kMaxObj];
    Oint destroyer[kMaxObj];
    Obool in_release[kMaxThreads + 1];
    Oi64 held[kMaxThreads + 1][kMaxObj]; // per thread
    Obool newborn;  // the threads take the first references, all at once
    Oint arrived;
};
ORACLE Model M;
ORACLE int g_kind;

// What every object carries: one slot per thread, written without synchronisation by holders and
// read by the destructor.
struct Payload {
    int k;
    uint64_t magic;
    int64_t slot[kMaxThreads + 1];
    explicit Payload(int k) : k(k), magic(0x600dcafe) {
        for (auto& s : slot)
            s = 0;
    }
    ~Payload() {
        SIM_EXPECT(magic == 0x600dcafe, "uaf", "destructor of object %d runs on a dead object", k);
        SIM_EXPECT(M.unreleased[k] == 0, "early-destroy",
                   "object %d destroyed while %ld references are still held", k, (long)M.unreleased[k]);
        SIM_EXPECT(M.destroyed[k] == 0, "double-destroy", "object %d destroyed twice", k);
        SIM_EXPECT(M.in_release[self()], "early-destroy", "object %d destroyed outside Release()", k);
        M.destroyed[k]++;
        M.destroyer[k] = self();
        int64_t sum = 0;
        for (auto& s : slot)
            sum += s; // must be ordered after every holder's last write
        magic = sum >= 0 ? 0xdead : 0xdeae;
    }
};

struct Plain : public ke::RefcountedThreadsafe<Plain> {
    Payload p;
    explicit Plain(int k) : p(k) {}
};
struct Other {
    uint64_t pad[3];
    virtual void f() {}
    virtual ~Other() {}
};
struct Multi : public Other, public ke::RefcountedThreadsafe<Multi> {
    Payload p;
    explicit Multi(int k) : p(k) {}
};
struct Virt : public ke::VirtualRefcountedThreadsafe {
    Payload p;
    explicit Virt(int k) : p(k) {}
};
struct VirtMulti : public Other, public ke::VirtualRefcountedThreadsafe {
    Payload p;
    explicit VirtMulti(int k) : p(k) {}
};
struct Impl : public ke::IRefcounted, public ke::RefcountedThreadsafe<Impl> {
    Payload p;
    explicit Impl(int k) : p(k) {}
    KE_IMPL_REFCOUNTING_TS(Impl)
};

struct Ref {
    Plain* plain = nullptr;
    Multi* multi = nullptr;
    ke::IRefcounted* iface = nullptr;
    Payload* p = nullptr;
    bool has_result = false;
};
ORACLE Ref g_obj[kMaxObj];

void make(int k) {
    Ref r;
    switch (g_kind) {
        case 0:
            r.plain = new Plain(k);
            r.p = &r.plain->p;
            r.has_result = true;
            break;
        case 1:
            r.multi = new Multi(k);
            r.p = &r.multi->p;
            r.has_result = true;
            break;
        case 2: {
            Virt* v = new Virt(k);
            r.iface = v;
            r.p = &v->p;
            break;
        }
        case 3: {
            VirtMulti* v = new VirtMulti(k);
            r.iface = v;
            r.p = &v->p;
            break;
        }
        default: {
            Impl* v = new Impl(k);
            r.iface = v;
            r.p = &v->p;
            break;
        }
    }
    g_obj[k] = r;
}

void add_ref(int k) {
    Ref& r = g_obj[k];
    if (r.plain)
        r.plain->AddRef();
    else if (r.multi)
        r.multi->AddRef();
    else
        r.iface->AddRef();
    M.unreleased[k]++;
}

void release(int k) {
    Ref& r = g_obj[k];
    int me = self();
    M.unreleased[k]--;
    M.in_release[me] = true;
    bool result = true;
    if (r.plain)
        result = r.plain->Release();
    else if (r.multi)
        result = r.multi->Release();
    else
        r.iface->Release();
    M.in_release[me] = false;
    bool mine = M.destroyed[k] && M.destroyer[k] == me;
    if (r.has_result) {
        SIM_EXPECT(result == !mine, "release-result", "Release() of object %d returned %s but this call %s it", k,
                   result ? "true" : "false", mine ? "destroyed" : "did not destroy");
    }
    if (mine)
        M.destroyer[k] = -1; // so that a second call on this thread is not credited
}

// A mailbox per object: references handed from thread to thread under a lock.
struct Mailbox {
    std::mutex lock;
    int64_t n[kMaxObj];
    std::atomic<int> arrived{0};
};
ORACLE Mailbox* g_box;

enum { ADD, REL, TOUCH, BULK, GIVE, TAKE, NOPS };

void body(int t, const Op& op) {
    crash_point();
    int me = t + 1;
    int k = clampi(op.a, kMaxObj);
    if (!g_obj[k].p)
        return;
    switch (op.code % NOPS) {
        case ADD:
            if (M.held[me][k] > 0) {
                add_ref(k);
                M.held[me][k]++;
            }
            break;
        case REL:
            if (M.held[me][k] > 0) {
                M.held[me][k]--;
                release(k);
            }
            break;
        case TOUCH:
            if (M.held[me][k] > 0) {
                SIM_EXPECT(g_obj[k].p->magic == 0x600dcafe, "uaf", "a held object is not alive");
                g_obj[k].p->slot[me]++;
            }
            break;
        case BULK:
            // Very many references at once: the count must not wrap.
            if (M.held[me][k] > 0) {
                int64_t n = op.b % 5 == 0 ? 70000 : op.b % 5 == 1 ? 300 : 3;
                {
                    Quiet q;
                    for (int64_t i = 0; i < n; i++)
                        add_ref(k);
                    M.held[me][k] += n;
                    probe(n == 70000 ? "bulk64k" : "bulk");
                }
                point();
                M.held[me][k] -= n;
                for (int64_t i = 0; i < n; i++) {
                    if (i < 2 || i + 2 >= n) {
                        release(k);
                    } else {
                        Quiet q;
                        release(k);
                    }
                    if (M.destroyed[k])
                        violation("early-destroy", "object %d destroyed although its references are held", k);
                }
            }
            break;
        case GIVE:
            if (M.held[me][k] > 0) {
                std::lock_guard<std::mutex> l(g_box->lock);
                g_box->n[k]++;
                M.held[me][k]--;
            }
            break;
        case TAKE: {
            std::lock_guard<std::mutex> l(g_box->lock);
            if (g_box->n[k] > 0) {
                g_box->n[k]--;
                M.held[me][k]++;
                probe("handover");
            }
            break;
        }
    }
}

void first_refs(int t) {
    if (!M.newborn)
        return;
    for (int k = 0; k < kMaxObj; k++)
        if (g_obj[k].p) {
            add_ref(k);
            M.held[t + 1][k]++;
        }
    // Nobody lets go before all have theirs.
    g_box->arrived.fetch_add(1, std::memory_order_relaxed);
    while (g_box->arrived.load(std::memory_order_relaxed) < M.arrived)
        std::this_thread::yield();
    probe("newborn");
}

void drop_all(int t) {
    int me = t + 1;
    for (int k = 0; k < kMaxObj; k++)
        while (M.held[me][k] > 0) {
            crash_point();
            M.held[me][k]--;
            release(k);
        }
}

void run(const Program& p) {
    enable_fault(F_CRASH);
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), 4);
    int nobj = 1 + clampi(p.p(2), kMaxObj);
    g_box = new Mailbox;
    for (auto& n : g_box->n)
        n = 0;
    M.newborn = p.p(3) & 2;
    M.arrived = nt;
    for (int k = 0; k < nobj; k++) {
        make(k);
        if (M.newborn)
            continue;
        // The creator holds the first reference, so the others can be handed out.
        add_ref(k);
        for (int t = 1; t <= nt; t++) {
            int n = clampi(p.p(4 + k) >> (2 * t), 4);
            for (int i = 0; i < n; i++) {
                add_ref(k);
                M.held[t][k]++;
            }
        }
    }
    bool main_keeps = p.p(3) & 1;
    if (!main_keeps && !M.newborn) {
        for (int k = 0; k < nobj; k++) {
            int64_t others = M.unreleased[k] - 1;
            release(k);
            if (others == 0)
                SIM_EXPECT(M.destroyed[k] == 1, "leak", "object %d not destroyed by the last Release()", k);
            if (others == 0)
                g_obj[k].p = nullptr;
        }
    }
    run_threads(p, nt, body, first_refs, drop_all);
    set_no_preempt(true);
    disable_faults();
    // Recovery: whatever crashed threads held, and what is still in the mailbox.
    bool any_crash = false;
    for (int t = 1; t <= nt; t++)
        any_crash |= crashed(t);
    for (int k = 0; k < nobj; k++) {
        if (!g_obj[k].p)
            continue;
        if (M.unreleased[k] > 0) {
            SIM_EXPECT(M.destroyed[k] == 0, "early-destroy", "object %d destroyed with references outstanding", k);
            SIM_EXPECT(is_live(g_obj[k].p), "early-destroy", "object %d freed with references outstanding", k);
            if (any_crash)
                probe("abandoned");
        }
        if (any_crash)
            break; // what crashed threads wrote is not ordered before us: leave the objects alone
        while (M.unreleased[k] > 0)
            release(k);
        SIM_EXPECT(M.destroyed[k] == 1, "leak", "object %d was not destroyed by its last Release()", k);
    }
    for (int k = 0; k < nobj; k++)
        if (M.unreleased[k] == 0)
            SIM_EXPECT(M.destroyed[k] == 1, "leak", "object %d was not destroyed by its last Release()", k);
    if (!any_crash) {
        delete g_box;
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked (%s)", live_blocks() - base,
                   describe_live().c_str());
    }
}

void gen_common(Rng& r, Program& p) {
    int nt = (int)r.range(2, 4), nobj = (int)r.range(1, r.chance(0.7) ? 1 : 3);
    p.params = {(int64_t)r.below(3), nt - 1, nobj - 1, (int64_t)r.below(2) + (r.below(6) ? 0 : 2)};
    for (int k = 0; k < kMaxObj; k++) {
        int64_t v = 0;
        for (int t = 1; t <= nt; t++)
            v |= r.range(r.chance(0.8) ? 1 : 0, r.chance(0.8) ? 1 : 3) << (2 * t);
        p.params.push_back(v);
    }
    int per = (int)r.range(0, 6);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            static const int w[] = {ADD, ADD, ADD, REL, REL, REL, TOUCH, TOUCH, TOUCH, GIVE, TAKE, BULK};
            int c = w[r.below(12)];
            if (c == BULK && !r.chance(0.1))
                c = TOUCH;
            p.ops.push_back(mkop(t, c, (int64_t)r.below(nobj), (int64_t)r.below(5)));
        }
}
void gen1(Rng& r, Program& p) {
    gen_common(r, p);
    p.params.push_back((int64_t)r.below(2));
}
void run1(const Program& p) {
    g_kind = clampi(p.p(7), 2);
    run(p);
}
void gen2(Rng& r, Program& p) {
    gen_common(r, p);
    p.params.push_back((int64_t)r.below(3));
}
void run2(const Program& p) {
    g_kind = 2 + clampi(p.p(7), 3);
    run(p);
}

SIM_SCENARIO(c01, "refcount", gen1, run1);
SIM_SCENARIO(c02, "refcount_virtual", gen2, run2);

} // namespace
