// C03, C04: AtomicRef as a shared, reference-owning cell.
//
// Threads read and assign a few cells; objects are born with a count of zero, so the cell's own
// reference is often the only one. Oracles: linearizability of each cell's history as a register,
// a table of references held, and the state of the heap when all is done. In C04, destructors get
// back to the cells, and threads stall at arbitrary points.
#include "common.h"

#include <atomic>

#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>

using namespace sim;

namespace scen_atomicref {

const int kCells = 2;
const int kSlots = 2;
const int kMaxT = 5;
const int kMaxObj = 64;
const int kNotes = 4;

struct Model {
    Oint made;
    Oi64 held[kMaxObj]; // references held by threads
    Oint destroyed[kMaxObj];
    Obool reenter;
    Obool crashed;
    Oint depth[kMaxT + 1];
    Oint noted[kMaxObj][kMaxT + 1];
    Oi64 note_put[kCells][kMaxObj][kMaxT + 1][kNotes]; // when the cell had been given the object after the note
};
ORACLE Model M;
ORACLE std::vector<RegOp>* g_hist[kCells];
ORACLE void* g_cells[kCells];

struct Payload {
    int64_t id;
    uint64_t magic;
    int64_t slot[kMaxT + 1];
    int64_t note[kMaxT + 1][kNotes];
    int64_t re_op, re_cell;
    explicit Payload(int64_t i) : id(i), magic(0x600dcafe), re_op(0), re_cell(0) {
        for (auto& s : slot)
            s = 0;
        for (auto& n : note)
            for (auto& x : n)
                x = 0;
    }
    void dying() {
        SIM_EXPECT(magic == 0x600dcafe, "uaf", "destructor of object %ld runs on a dead object", (long)id);
        SIM_EXPECT(M.destroyed[id] == 0, "double-destroy", "object %ld destroyed twice", (long)id);
        SIM_EXPECT(M.held[id] == 0, "early-destroy", "object %ld destroyed while a thread holds %ld references",
                   (long)id, (long)M.held[id]);
        M.destroyed[id]++;
        int64_t sum = 0;
        for (auto& s : slot)
            sum += s;
        magic = sum >= 0 ? 0xdead : 0xdeae;
    }
};

template <typename T>
void reenter(Payload& p);

struct Plain : public ke::RefcountedThreadsafe<Plain> {
    uint64_t pad;
    Payload p;
    explicit Plain(int64_t id) : p(id) {}
    ~Plain() {
        p.dying();
        reenter<Plain>(p);
    }
};

// A client's own reference count: the increment is relaxed, as usual for reference counts, so the
// cell's own ordering has to publish the object.
struct Custom {
    std::atomic<int> n{0};
    Payload p;
    explicit Custom(int64_t id) : p(id) {}
    void AddRef() {
        int old = n.fetch_add(1, std::memory_order_relaxed);
        SIM_EXPECT(old >= 0, "uaf", "reference added to a destroyed object");
    }
    void Release() {
        int old = n.fetch_sub(1, std::memory_order_acq_rel);
        SIM_EXPECT(old > 0, "over-release", "object %ld released more often than referenced", (long)p.id);
        if (old == 1) {
            p.dying();
            reenter<Custom>(p);
            n.store(-1000, std::memory_order_relaxed);
            delete this;
        }
    }
};

struct Virt : public ke::VirtualRefcountedThreadsafe {
    Payload p;
    explicit Virt(int64_t id) : p(id) {}
    ~Virt() {
        p.dying();
        reenter<Virt>(p);
    }
};

template <typename T>
ke::AtomicRef<T>& cell(int i) {
    return *(ke::AtomicRef<T>*)g_cells[i];
}

int64_t record(int c, bool write, int64_t val, int64_t inv) {
    Quiet q;
    g_hist[c]->push_back(RegOp{inv, (int64_t)seq(), write, val});
    return (int64_t)g_hist[c]->size() - 1;
}

// The ids of objects handed to pending writes are recorded when the write is invoked, so that a
// thread that never returns still shows its write.
int64_t begin_write(int c, int64_t val) {
    Quiet q;
    g_hist[c]->push_back(RegOp{(int64_t)seq(), -1, true, val});
    return (int64_t)g_hist[c]->size() - 1;
}
void end_write(int c, int64_t h) {
    (*g_hist[c])[h].ret = (int64_t)seq();
}

template <typename T>
T* fresh() {
    if (M.made + 1 >= kMaxObj)
        return nullptr;
    return new T(++M.made);
}

template <typename T>
void assign(int c, T* v, int64_t id) {
    int64_t h = begin_write(c, id);
    cell<T>(c) = v;
    end_write(c, h);
}

// Returns an owned raw pointer.
template <typename T>
T* fetch(int c) {
    int64_t inv = (int64_t)seq();
    ke::AlreadyRefed<T> r = cell<T>(c).get();
    T* t = r.take();
    if (t) {
        int64_t id = t->p.id;
        SIM_EXPECT(id > 0 && id <= M.made && t->p.magic == 0x600dcafe && !M.destroyed[id], "uaf",
                   "get() returned an object that is not alive");
        M.held[id]++;
        record(c, false, id, inv);
        // Whatever was noted in it before it was stored here is there to see, also if it had been here before.
        for (int w = 0; w <= kMaxT; w++)
            for (int k = 0; k < kNotes; k++)
                if (M.note_put[c][id][w][k] && M.note_put[c][id][w][k] < inv) {
                    SIM_EXPECT(t->p.note[w][k] == k + 1, "visibility", "a note made in an object before it was stored is not there");
                    probe("note");
                }
    } else {
        record(c, false, 0, inv);
    }
    return t;
}
template <typename T>
void drop(T* t) {
    M.held[t->p.id]--;
    t->Release();
}

template <typename T>
void reenter(Payload& p) {
    if (!M.reenter || M.depth[self()] >= 3)
        return;
    M.depth[self()]++;
    int c = clampi(p.re_cell, kCells);
    switch (clampi(p.re_op, 4)) {
        case 1:
            probe("dtor-get");
            if (T* t = fetch<T>(c))
                drop(t);
            break;
        case 2:
            probe("dtor-clear");
            assign<T>(c, nullptr, 0);
            break;
        case 3:
            probe("dtor-assign");
            if (T* t = fresh<T>())
                assign<T>(c, t, t->p.id);
            break;
    }
    M.depth[self()]--;
}

template <typename T>
struct World {
    ORACLE static T* slot[kMaxT + 1][kSlots];

    enum { NEW, NEW2, GET, GET2, HOLD, HOLD2, PUT, CLEAR, TOUCH, DROP, SELF, DOUBLE, NOPS };

    static void body(int t, const Op& op) {
        crash_point();
        int me = t + 1;
        int c = clampi(op.a, kCells), s = clampi(op.b, kSlots);
        T*& mine = slot[me][s];
        switch (clampi(op.code, NOPS)) {
            case NEW:
            case NEW2:
                if (T* t = fresh<T>()) {
                    t->p.re_op = op.c & 3;
                    t->p.re_cell = (op.c >> 2) & 1;
                    t->p.slot[me] = 1; // before publication
                    int64_t id = t->p.id;
                    assign<T>(c, t, id);
                }
                break;
            case GET:
            case GET2:
                if (T* t = fetch<T>(c)) {
                    t->p.slot[me]++;
                    drop(t);
                }
                break;
            case HOLD:
            case HOLD2:
                if (!mine) {
                    mine = fetch<T>(c);
                    if (mine)
                        probe("hold");
                }
                break;
            case PUT:
                if (mine) {
                    int64_t id = mine->p.id;
                    int k = M.noted[id][me];
                    if (k < kNotes) {
                        M.noted[id][me] = k + 1;
                        mine->p.note[me][k] = k + 1;
                    }
                    assign<T>(c, mine, id);
                    if (k < kNotes)
                        M.note_put[c][id][me][k] = (int64_t)seq();
                }
                break;
            case CLEAR:
                assign<T>(c, nullptr, 0);
                break;
            case TOUCH:
                if (mine) {
                    SIM_EXPECT(mine->p.magic == 0x600dcafe, "uaf", "a held object is not alive");
                    mine->p.slot[me]++;
                }
                break;
            case DROP:
                if (T* x = mine) {
                    mine = nullptr;
                    drop(x);
                }
                break;
            case SELF: {
                // Move the value from one cell to the other through a RefPtr.
                int64_t inv = (int64_t)seq();
                ke::RefPtr<T> r = cell<T>(c).get();
                T* raw = r.get();
                int64_t id = raw ? raw->p.id : 0;
                if (raw) {
                    SIM_EXPECT(raw->p.magic == 0x600dcafe, "uaf", "get() returned an object that is not alive");
                    M.held[id]++;
                }
                record(c, false, id, inv);
                assign<T>((c + (op.b & 1)) % kCells, raw, id);
                if (raw)
                    M.held[id]--;
                break;
            }
            case DOUBLE: {
                // Two references at once to whatever the two cells hold.
                T* x = fetch<T>(c);
                T* y = fetch<T>((c + 1) % kCells);
                if (x)
                    drop(x);
                if (y)
                    drop(y);
                break;
            }
        }
    }

    static void end(int t) {
        for (int s = 0; s < kSlots; s++)
            if (T* x = slot[t + 1][s]) {
                crash_point();
                slot[t + 1][s] = nullptr;
                drop(x);
            }
    }

    static void run(const Program& p, bool live) {
        size_t base = live_blocks();
        M.reenter = live;
        int nt = 1 + clampi(p.p(1), 4);
        {
            Quiet q;
            for (auto& h : g_hist)
                h = new std::vector<RegOp>;
        }
        int64_t init[kCells] = {0, 0};
        for (int c = 0; c < kCells; c++) {
            if (p.p(3) >> c & 1) {
                T* t = fresh<T>();
                init[c] = t->p.id;
                t->p.re_op = p.p(4) >> (2 * c) & 3;
                t->p.re_cell = p.p(4) >> (4 + c) & 1;
                g_cells[c] = new ke::AtomicRef<T>(t);
            } else if (p.p(4) >> (4 + c) & 1) {
                g_cells[c] = new ke::AtomicRef<T>(nullptr);
            } else {
                g_cells[c] = new ke::AtomicRef<T>();
            }
        }
        run_threads(p, nt, body, nullptr, end);
        set_no_preempt(true);
        disable_faults();
        bool dead = false;
        for (int t = 1; t <= nt; t++)
            dead |= crashed(t);
        // The cell still works, and holds the value its history says.
        for (int c = 0; c < kCells; c++)
            if (T* t = fetch<T>(c)) {
                if (!dead) {
                    t->p.slot[0]++;
                    drop(t);
                }
            }
        for (int c = 0; c < kCells; c++) {
            Quiet q;
            bool gave_up;
            if (!register_linearizable(*g_hist[c], init[c], &gave_up)) {
                std::string s;
                for (auto& o : *g_hist[c])
                    s += (o.write ? " w" : " r") + std::to_string(o.val) + "@[" + std::to_string(o.inv) + "," +
                         std::to_string(o.ret) + "]";
                violation("linearizability", "history of cell %d (initially %ld) is not that of a register:%s", c,
                          (long)init[c], s.c_str());
            }
            if (gave_up)
                probe("lin-gave-up");
        }
        if (dead) {
            probe("crash");
            return; // what the dead held stays behind
        }
        M.reenter = false;
        for (int c = 0; c < kCells; c++)
            delete (ke::AtomicRef<T>*)g_cells[c];
        for (int i = 1; i <= M.made; i++)
            SIM_EXPECT(M.destroyed[i] == 1, "leak", "object %d was never destroyed", i);
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked (%s)", live_blocks() - base,
                   describe_live().c_str());
    }
};
template <typename T>
ORACLE T* World<T>::slot[kMaxT + 1][kSlots];

void gen(Rng& r, Program& p, bool live) {
    int nt = (int)r.range(2, 4);
    int ncell = r.chance(0.7) ? 1 : 2;
    p.params = {(int64_t)r.below(3), nt - 1, (int64_t)r.below(3), (int64_t)r.below(4), (int64_t)r.below(64)};
    int per = (int)r.range(1, nt == 2 ? 7 : 5);
    int style = (int)r.below(3);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            int c = style == 1 && t ? (r.chance(0.8) ? 2 : 6) : style == 2 ? (r.chance(0.5) ? 0 : 2)
                                                                           : (int)r.below(12);
            p.ops.push_back(mkop(t, c, (int64_t)r.below(ncell), (int64_t)r.below(kSlots),
                                 live ? (int64_t)r.below(8) : 0));
        }
}
void go(const Program& p, bool live) {
    enable_fault(F_CRASH);
    switch (clampi(p.p(2), 3)) {
        case 0:
            World<Plain>::run(p, live);
            break;
        case 1:
            World<Custom>::run(p, live);
            break;
        default:
            World<Virt>::run(p, live);
    }
}
void gen3(Rng& r, Program& p) {
    gen(r, p, false);
}
void run3(const Program& p) {
    go(p, false);
}
void gen4(Rng& r, Program& p) {
    gen(r, p, true);
}
void run4(const Program& p) {
    go(p, true);
}

SIM_SCENARIO(c03, "atomicref", gen3, run3);
SIM_SCENARIO(c04, "atomicref_live", gen4, run4);

} // namespace
