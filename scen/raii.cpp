// C18: scope guards act exactly once on every way out of the scope.
#include "elem.h"

#include <assert.h>

#include <amtl/am-raii.h>

using namespace sim;
using namespace elems;

namespace scen_raii {

const int kMaxT = 4;
const int kVars = 3;
const int kLists = 2;
const int kDepth = 10;

struct Frame : public ke::StackLinked<Frame> {
    int id;
    Frame(Frame** head, int id, bool frail) : ke::StackLinked<Frame>(head), id(id) {
        if (frail)
            cancel_point();
    }
    Frame* prev() const {
        return prev_;
    }
};

// The state of the program, one per thread (simulated heap).
struct State {
    int64_t i[kVars];
    Elem e[kVars];
    Frail f[kVars];
    bool b[kVars];
    Frame* list[kLists];
};
// What it should be.
struct Shadow {
    int64_t i[kVars], e[kVars], f[kVars];
    bool b[kVars];
    std::vector<int>* list[kLists];  // ids, innermost last
    std::vector<int>* log;           // what guards did
    std::vector<int>* want;          // what they should have done
    struct G {
        int id;
        bool active;
        void* obj;
        int kind;
    };
    std::vector<G>* guards;
};
ORACLE State* g_st[kMaxT];
ORACLE Shadow g_sh[kMaxT];
ORACLE Oint g_ids[kMaxT];

__attribute__((noinline)) static void verify(int t, const char* when) {
    State& s = *g_st[t];
    Shadow& h = g_sh[t];
    for (int k = 0; k < kVars; k++) {
        SIM_EXPECT(s.i[k] == h.i[k], "restore", "%s: integer %d is %ld instead of %ld", when, k, (long)s.i[k], (long)h.i[k]);
        SIM_EXPECT(s.b[k] == h.b[k], "restore", "%s: boolean %d is wrong", when, k);
        SIM_EXPECT(s.e[k].get() == h.e[k], "restore", "%s: value %d is %ld instead of %ld", when, k, (long)s.e[k].get(), (long)h.e[k]);
        SIM_EXPECT(s.f[k].get() == h.f[k], "restore", "%s: object %d is %ld instead of %ld", when, k, (long)s.f[k].get(), (long)h.f[k]);
    }
    for (int k = 0; k < kLists; k++) {
        Frame* f = s.list[k];
        for (size_t n = h.list[k]->size(); n > 0; n--) {
            SIM_EXPECT(f, "list", "%s: list %d ends early", when, k);
            SIM_EXPECT(f->id == (*h.list[k])[n - 1], "list", "%s: list %d has frame %d instead of %d", when, k, f->id, (*h.list[k])[n - 1]);
            f = f->prev();
        }
        SIM_EXPECT(!f, "list", "%s: list %d is too long", when, k);
    }
    Quiet q;
    for (size_t n = 0; n < h.log->size() && n < h.want->size(); n++)
        if ((*h.log)[n] != (*h.want)[n])
            violation("guard", "%s: guard %d ran instead of guard %d", when, (*h.log)[n], (*h.want)[n]);
    if (h.log->size() > h.want->size())
        violation("guard", "%s: guard %d ran, again or although it should not", when, (*h.log)[h.want->size()]);
    if (h.log->size() < h.want->size())
        violation("guard", "%s: guard %d did not run", when, (*h.want)[h.log->size()]);
}

static void ran(int t, int id) {
    Quiet q;
    g_sh[t].log->push_back(id);
}
// A callback with a life of its own.
struct Fn {
    Elem id;
    int t;
    Fn(int t, int id) : id(id), t(t) {}
    void operator()() const {
        ran(t, (int)id.get());
    }
};
struct FnMove {  // cannot be copied
    Elem id;
    int t;
    FnMove(int t, int id) : id(id), t(t) {}
    FnMove(FnMove&& o) : id(std::move(o.id)), t(o.t) {}
    FnMove(const FnMove&) = delete;
    void operator()() {
        ran(t, (int)id.get());
    }
};

enum { SAVE_I, SAVE_E, SAVE_F, SAVE_B, LINK, LINK_F, GUARD_L, GUARD_F, GUARD_M, GUARD_R, MOVEG, TRY, CALL, CLEANUP, SCOPES,
       SET = SCOPES, VOID_I, VOID_E, VOID_F, CANCELG, CANCELG2, CPOINT, LEAVE, YIELD, RAISE, NOPS };

typedef ke::ScopeGuard<Fn> GF;
typedef ke::ScopeGuard<FnMove> GM;
typedef ke::ScopeGuard<Fn&> GR;

// Undoes, after the real guard has, what the model expects a scope to undo; then compares.
struct Model {
    int t, kind, k;
    int64_t old;
    bool entered;
    Model(int t, int kind, int k) : t(t), kind(kind), k(k), old(0), entered(false) {}
    void enter_save(int64_t v) {
        Shadow& h = g_sh[t];
        int64_t* x = where();
        if (kind == SAVE_B) {
            old = h.b[k];
            h.b[k] = v & 1;
        } else {
            old = *x;
            *x = v;
        }
        entered = true;
        verify(t, "inside");
    }
    int64_t* where() {
        Shadow& h = g_sh[t];
        return kind == SAVE_I ? &h.i[k] : kind == SAVE_E ? &h.e[k] : &h.f[k];
    }
    void enter_link(int id) {
        {
            Quiet q;
            g_sh[t].list[k]->push_back(id);
        }
        entered = true;
        verify(t, "inside");
    }
    // |obj| is the guard, in case it is to be cancelled or moved from.
    void enter_guard(int id, bool active, void* obj, int type) {
        Quiet q;
        g_sh[t].guards->push_back({id, active, obj, type});
        entered = true;
    }
    ~Model() {
        R.fragile[self()] = false;
        Shadow& h = g_sh[t];
        if (entered) {
            if (kind == SAVE_B) {
                h.b[k] = old;
            } else if (kind <= SAVE_F) {
                *where() = old;
            } else {
                Quiet q;
                if (kind == LINK) {
                    h.list[k]->pop_back();
                } else if (kind == GUARD_L) {
                    if (h.guards->back().active)
                        h.want->push_back(h.guards->back().id);
                    h.guards->pop_back();
                }
            }
        }
        verify(t, "on leaving a scope");
    }
};

struct Task {
    int t;
    const Op* ops[64];
    int n;
};

// Returns false to leave the enclosing call early.
static bool exec(Task& k, int i, int end, int depth);

// Runs a part of the program on the way out of a scope, which may be while an exception is under way.
struct Cleanup {
    Task& k;
    int from, to, depth;
    ~Cleanup() {
        try {
            exec(k, from, to, depth);
        } catch (Cancel&) {
            probe("cancelled-cleanup");
        }
        verify(k.t, "after a cleanup");
    }
};

template <typename T>
static bool saved(Task& k, int kind, T* where, const T& v, int64_t mv, int idx, int i, int e, int depth) {
    Model m(k.t, kind, idx);
    if (kind == SAVE_F)
        R.fragile[self()] = true;
    ke::SaveAndSet<T> s(where, v);
    R.fragile[self()] = false;
    m.enter_save(mv);
    return exec(k, i, e, depth);
}
static bool exec(Task& k, int i, int end, int depth) {
    int t = k.t;
    State& s = *g_st[t];
    Shadow& h = g_sh[t];
    while (i < end) {
        const Op& op = *k.ops[i];
        int code = clampi(op.code, NOPS), v = clampi(op.a, kVars), l = clampi(op.a, kLists);
        i++;
        if (code < SCOPES) {
            if (depth >= kDepth)
                continue;
            int e = i + clampi(op.c, 16);
            if (e > end)
                e = end;
            bool go = true;
            int id = ++g_ids[t];
            switch (code) {
                // (Now and then the value to set is the one that is there, by reference.)
                case SAVE_I:
                    if (op.b % 8 == 7) {
                        probe("sets-itself");
                        go = saved<int64_t>(k, SAVE_I, &s.i[v], s.i[v], h.i[v], v, i, e, depth + 1);
                        break;
                    }
                    go = saved<int64_t>(k, SAVE_I, &s.i[v], op.b, op.b, v, i, e, depth + 1);
                    break;
                case SAVE_B: go = saved<bool>(k, SAVE_B, &s.b[v], op.b & 1, op.b, v, i, e, depth + 1); break;
                case SAVE_E: {
                    if (op.b % 4 == 3) {
                        go = saved<Elem>(k, SAVE_E, &s.e[v], s.e[v], h.e[v], v, i, e, depth + 1);
                        break;
                    }
                    Elem n(op.b);
                    go = saved<Elem>(k, SAVE_E, &s.e[v], n, op.b, v, i, e, depth + 1);
                    break;
                }
                case SAVE_F: {
                    if (op.b % 4 == 3) {
                        go = saved<Frail>(k, SAVE_F, &s.f[v], s.f[v], h.f[v], v, i, e, depth + 1);
                        break;
                    }
                    Frail n(op.b);
                    go = saved<Frail>(k, SAVE_F, &s.f[v], n, op.b, v, i, e, depth + 1);
                    break;
                }
                case LINK:
                case LINK_F: {
                    Model m(t, LINK, l);
                    Frame f(&s.list[l], id, code == LINK_F);
                    m.enter_link(id);
                    go = exec(k, i, e, depth + 1);
                    break;
                }
                case GUARD_L: {
                    Model m(t, GUARD_L, 0);
                    auto g = ke::MakeScopeGuard([t, id]() -> void { ran(t, id); });
                    m.enter_guard(id, true, nullptr, GUARD_L);
                    go = exec(k, i, e, depth + 1);
                    if (op.b & 1) {
                        g.cancel();
                        Quiet q;
                        h.guards->back().active = false;
                    }
                    break;
                }
                case GUARD_F: {
                    Model m(t, GUARD_L, 0);
                    GF g{Fn(t, id)};
                    m.enter_guard(id, true, &g, GUARD_F);
                    go = exec(k, i, e, depth + 1);
                    break;
                }
                case GUARD_M: {
                    Model m(t, GUARD_L, 0);
                    GM g = ke::MakeScopeGuard(FnMove(t, id));
                    m.enter_guard(id, true, &g, GUARD_M);
                    go = exec(k, i, e, depth + 1);
                    break;
                }
                case GUARD_R: {
                    Model m(t, GUARD_L, 0);
                    Fn fn(t, id);
                    GR g = ke::MakeScopeGuard(fn);
                    m.enter_guard(id, true, &g, GUARD_R);
                    go = exec(k, i, e, depth + 1);
                    break;
                }
                case MOVEG: {
                    // The innermost guards that can be moved hand their duty to a new one.
                    Shadow::G* from = nullptr;
                    {
                        Quiet q;
                        int skip = clampi(op.b, 3);
                        for (size_t n = h.guards->size(); n-- > 0;)
                            if ((*h.guards)[n].kind == GUARD_F || (*h.guards)[n].kind == GUARD_M) {
                                from = &(*h.guards)[n];
                                if (!skip--)
                                    break;
                            }
                    }
                    if (!from)
                        break;
                    Model m(t, GUARD_L, 0);
                    Shadow::G g = *from;
                    from->active = false;
                    probe(g.active ? "moved" : "moved-cancelled");
                    if (g.kind == GUARD_F) {
                        GF n(std::move(*(GF*)g.obj));
                        m.enter_guard(g.id, g.active, &n, GUARD_F);
                        go = exec(k, i, e, depth + 1);
                    } else if (g.kind == GUARD_M) {
                        GM n(std::move(*(GM*)g.obj));
                        m.enter_guard(g.id, g.active, &n, GUARD_M);
                        go = exec(k, i, e, depth + 1);
                    }
                    break;
                }
                case TRY: {
                    bool caught = false;
                    try {
                        go = exec(k, i, e, depth + 1);
                    } catch (Cancel&) {
                        caught = true;
                    }
                    if (caught)
                        probe("caught");
                    verify(t, "after a handler");
                    break;
                }
                case CLEANUP: {
                    Cleanup c{k, (i + e) / 2, e, depth + 1};
                    go = exec(k, i, (i + e) / 2, depth + 1);
                    break;
                }
                case CALL:
                    exec(k, i, e, depth + 1);
                    go = true;
                    break;
            }
            verify(t, "after a scope");
            if (!go)
                return false;
            i = e;
            continue;
        }
        switch (code) {
            case SET:
                s.i[v] = h.i[v] = op.b;
                s.e[v].set(op.b + 1);
                h.e[v] = op.b + 1;
                break;
            case VOID_I: {
                int64_t r = ke::ReturnAndVoid(s.i[v]);
                SIM_EXPECT(r == h.i[v], "void", "ReturnAndVoid returned %ld instead of %ld", (long)r, (long)h.i[v]);
                h.i[v] = 0;
                break;
            }
            case VOID_E: {
                Elem r = ke::ReturnAndVoid(s.e[v]);
                SIM_EXPECT(r.get() == h.e[v], "void", "ReturnAndVoid returned %ld instead of %ld", (long)r.get(), (long)h.e[v]);
                h.e[v] = kUnset;
                break;
            }
            case VOID_F: {
                Fragile fragile;
                Frail r = ke::ReturnAndVoid(s.f[v]);
                fragile.off();
                SIM_EXPECT(r.get() == h.f[v], "void", "ReturnAndVoid returned %ld instead of %ld", (long)r.get(), (long)h.f[v]);
                h.f[v] = 0;
                break;
            }
            case CANCELG:
            case CANCELG2: {
                Shadow::G* g = nullptr;
                {
                    Quiet q;
                    size_t n = h.guards->size();
                    int back = clampi(op.b, 4);
                    if ((int)n > back)
                        g = &(*h.guards)[n - 1 - back];
                }
                if (!g || !g->obj)
                    break;
                if (g->kind == GUARD_F)
                    ((GF*)g->obj)->cancel();
                else if (g->kind == GUARD_M)
                    ((GM*)g->obj)->cancel();
                else
                    ((GR*)g->obj)->cancel();
                g->active = false;
                probe("guard-cancelled");
                break;
            }
            case CPOINT:
                cancel_point();
                break;
            case RAISE:
                if (op.b % 4 == 1)
                    throw Cancel();
                break;
            case LEAVE:
                if (op.b & 1) {
                    probe("left-early");
                    return false;
                }
                break;
            case YIELD:
                point();
                break;
        }
        verify(t, "after an operation");
    }
    return true;
}

ORACLE const Program* g_p;
static void thread_main(void* arg) {
    int t = (int)(intptr_t)arg;
    Task k;
    k.t = t;
    k.n = 0;
    {
        Quiet q;
        for (const Op& o : g_p->ops)
            if (o.t == t && k.n < 64)
                k.ops[k.n++] = &o;
    }
    try {
        exec(k, 0, k.n, 0);
    } catch (Cancel&) {
        probe("cancelled-to-the-end");
    }
    verify(t, "at the end");
}
static void run(const Program& p) {
    reg_reset();
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    g_p = &p;
    for (int t = 0; t < nt; t++) {
        g_st[t] = new State;
        Quiet q;
        Shadow& h = g_sh[t];
        g_ids[t] = 0;
        for (int k = 0; k < kVars; k++) {
            g_st[t]->i[k] = h.i[k] = k * 10 + t;
            g_st[t]->e[k].set(k * 100);
            h.e[k] = k * 100;
            h.f[k] = 0;
            g_st[t]->b[k] = h.b[k] = k & 1;
        }
        for (int k = 0; k < kLists; k++) {
            g_st[t]->list[k] = nullptr;
            h.list[k] = new std::vector<int>;
        }
        h.log = new std::vector<int>;
        h.want = new std::vector<int>;
        h.guards = new std::vector<Shadow::G>;
        h.guards->reserve(64);
    }
    enable_fault(F_CANCEL);
    enable_fault(F_STALL);
    int ids[kMaxT];
    for (int t = 0; t < nt; t++)
        ids[t] = spawn(thread_main, (void*)(intptr_t)t);
    for (int t = 0; t < nt; t++)
        join(ids[t]);
    disable_faults();
    set_no_preempt(true);
    for (int t = 0; t < nt; t++)
        delete g_st[t];
    SIM_EXPECT(!live_elems(), "leak", "%zu values were never destroyed", live_elems());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked", live_blocks() - base);
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(28);
        for (int k = 0; k < n; k++) {
            int code = r.below(8) == 0 ? TRY : r.below(12) == 0 ? CLEANUP : r.below(5) < 3 ? (int)r.below(SCOPES) : (int)r.range(SCOPES, NOPS - 1);
            p.ops.push_back(mkop(t, code, (int64_t)r.below(6), (int64_t)r.below(50), (int64_t)(r.below(3) ? r.below(6) : r.below(16))));
        }
    }
}
SIM_SCENARIO(raii, "raii", gen, run);
}  // namespace scen_raii
