// C05: RefPtr and AlreadyRefed conserve references.
//
// Programs of copies, moves, assignments (to itself, to what the old value owns, across related
// types), adoptions and hand-outs over a graph of objects whose destructors get back to the very
// pointers that are being assigned; operations may be abandoned by an exception, threads die, and
// thread-safe objects are shared between threads. The model counts owners; it is updated before
// the library is called, so nothing owned in the model may be destroyed, and what nobody owns must
// be gone once the call is over.
#include "common.h"

#include <mutex>
#include <utility>

#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>

using namespace sim;

namespace scen_refptr {

const int kSlots = 4;
const int kMaxT = 4;
const int kMaxObj = 160;

struct Model {
    Oint made;
    Oint owners[kMaxObj];
    Oint destroyed[kMaxObj];
    Oint edge[kMaxObj][2];
    Oint slot[kMaxT + 1][kSlots];
    Obool open[kMaxT + 1]; // this thread's slots may be used
    Oint depth[kMaxT + 1];
    Oint board[2];
    Obool alone; // one thread: edges may change, and destruction is immediate
};
ORACLE Model M;

void own(int id) {
    if (id)
        M.owners[id]++;
}
void disown(int id) {
    if (id) {
        M.owners[id]--;
        SIM_EXPECT(M.owners[id] >= 0, "harness", "model: negative owners of %d", id);
    }
}
// The location |loc| is about to hold |id|.
void become(Oint& loc, int id) {
    own(id);
    int old = loc;
    loc = id;
    disown(old);
}

// An existing reference to |id| moves into |loc|.
void pass(Oint& loc, int id) {
    int old = loc;
    loc = id;
    disown(old);
}

struct Pad {
    uint64_t pad[2] = {1, 2};
    virtual ~Pad() {}
};

template <int K, typename N>
struct Base;
template <typename N>
struct Base<0, N> {
    typedef ke::Refcounted<N> type;
};
template <typename N>
struct Base<1, N> {
    typedef ke::VirtualRefcounted type;
};
template <typename N>
struct Base<2, N> {
    typedef ke::RefcountedThreadsafe<N> type;
};
template <typename N>
struct Base<3, N> {
    typedef ke::VirtualRefcountedThreadsafe type;
};
template <int K>
struct World;

template <int K>
struct Node : public Base<K, Node<K>>::type {
    int id;
    int act, az, aw;
    uint64_t magic;
    ke::RefPtr<Node> next[2];
    Node(int id, int64_t how, const ke::RefPtr<Node>& a, const ke::RefPtr<Node>& b)
     : id(id), act((int)(how & 7)), az((int)(how >> 3 & 3)), aw((int)(how >> 5 & 3)), magic(0x600dcafe),
       next{a, b} {}
    // A copy with an identity of its own.
    Node(const Node& o, int id)
     : Base<K, Node<K>>::type(o), id(id), act(o.act), az(o.az), aw(o.aw), magic(o.magic), next{o.next[0], o.next[1]} {}
    virtual ~Node() {
        SIM_EXPECT(magic == 0x600dcafe, "uaf", "destructor of object %d runs on a dead object", id);
        SIM_EXPECT(!M.destroyed[id], "double-destroy", "object %d destroyed twice", id);
        SIM_EXPECT(M.owners[id] == 0, "early-destroy", "object %d destroyed with %d owners", id,
                   (int)M.owners[id]);
        M.destroyed[id] = 1;
        for (int i = 0; i < 2; i++)
            become(M.edge[id][i], 0);
        World<K>::reenter(*this);
        magic = 0xdead;
    }
};
template <int K>
struct Probe : public Base<K, Node<K>>::type {};
template <int K>
struct Derived : public Pad, public Node<K> {
    int tail;
    Derived(int id, int64_t how, const ke::RefPtr<Node<K>>& a, const ke::RefPtr<Node<K>>& b)
     : Node<K>(id, how, a, b), tail(77) {}
    ~Derived() {
        SIM_EXPECT(tail == 77, "uaf", "derived part of an object is not alive");
        tail = 0;
    }
};

template <int K>
struct World {
    typedef Node<K> N;
    typedef Derived<K> D;
    typedef ke::RefPtr<N> P;

    struct Slots {
        P s[kSlots];
    };
    struct Board {
        std::mutex lock;
        P p[2];
    };
    ORACLE static Slots* slots[kMaxT + 1];
    ORACLE static Board* board;

    static void alive(N* n, int want) {
        if (!want) {
            SIM_EXPECT(!n, "wrong-value", "pointer holds an object, should be null");
            return;
        }
        SIM_EXPECT(n != nullptr, "wrong-value", "pointer is null, should hold object %d", want);
        SIM_EXPECT(!M.destroyed[want], "harness", "model: object %d owned and destroyed", want);
        SIM_EXPECT(is_live(n), "uaf", "pointer to freed memory, should be object %d", want);
        SIM_EXPECT(n->magic == 0x600dcafe, "uaf", "object %d is not alive", want);
        SIM_EXPECT(n->id == want, "wrong-value", "pointer holds object %d, should be %d", n->id, want);
    }
    static void check_slot(int me, int i) {
        alive(slots[me]->s[i].get(), M.slot[me][i]);
    }

    static void reenter(N& n) {
        int me = self();
        if (!M.open[me] || M.depth[me] >= 2)
            return;
        M.depth[me]++;
        P* s = slots[me]->s;
        Oint* m = M.slot[me];
        int z = n.az, w = n.aw;
        switch (n.act) {
            case 1: // look
                for (int i = 0; i < kSlots; i++)
                    check_slot(me, i);
                probe("dtor-look");
                break;
            case 2: // clear
                become(m[z], 0);
                s[z] = nullptr;
                probe("dtor-clear");
                break;
            case 3: // copy
                become(m[w], m[z]);
                s[w] = s[z];
                probe("dtor-copy");
                break;
            case 4: { // hand out and drop
                int id = m[z];
                m[z] = 0;
                ke::AlreadyRefed<N> a = s[z].forget();
                if (a.operator->())
                    alive(a.operator->(), id);
                disown(id);
                probe("dtor-forget");
                break;
            }
            case 5: // move
                if (z != w) {
                    int id = m[z];
                    m[z] = 0;
                    pass(m[w], id);
                    s[w] = std::move(s[z]);
                    probe("dtor-move");
                }
                break;
        }
        M.depth[me]--;
    }

    static int fresh() {
        return M.made + 1 < kMaxObj ? ++M.made : 0;
    }

    enum {
        NEW, NEWD, COPY, MOVE, CLEAR, CHILD, CHILDMOVE, COPYCTOR, MOVECTOR, HANDOUT, ADOPT, ALREADY, CONVERT,
        LINK, UNLINK, SWAP, RAW, BYREF, OPS, UNWIND, PUT, GET, CLONE, ASSIGNOBJ, MANY, NOPS
    };

    static ke::AlreadyRefed<N> give(P& p) {
        P local(p);
        return local.forget();
    }
    static P through(P p) {
        return p;
    }

    static void body(int t, const Op& op) {
        crash_point();
        int me = t + 1;
        int x = clampi(op.a, kSlots), y = clampi(op.b, kSlots);
        int64_t c = op.c & 0xffff;
        P* s = slots[me]->s;
        Oint* m = M.slot[me];
        switch (clampi(op.code, NOPS)) {
            case NEW: {
                int id = fresh();
                if (!id)
                    break;
                M.edge[id][0] = m[y];
                own(m[y]);
                N* n = new N(id, c, s[y], nullptr);
                become(m[x], id);
                s[x] = n;
                break;
            }
            case NEWD: {
                int id = fresh();
                if (!id)
                    break;
                M.edge[id][0] = m[y];
                own(m[y]);
                M.edge[id][1] = m[x];
                own(m[x]);
                D* n = new D(id, c, s[y], s[x]);
                become(m[x], id);
                if (c & 0x100) {
                    s[x] = n; // operator=(S*)
                } else {
                    ke::RefPtr<D> d(n);
                    s[x] = P(d);
                }
                break;
            }
            case COPY:
                become(m[x], m[y]);
                s[x] = s[y];
                if (x == y)
                    probe("self-assign");
                break;
            case MOVE:
                if (x != y) {
                    int id = m[y];
                    m[y] = 0;
                    pass(m[x], id);
                } else {
                    probe("self-move");
                }
                s[x] = std::move(s[y]);
                break;
            case CLEAR:
                become(m[x], 0);
                if (c & 1)
                    s[x] = nullptr;
                else
                    s[x] = (N*)nullptr;
                break;
            case CHILD: // what the old value owns, perhaps alone
                if (m[x]) {
                    int e = (int)(c & 1);
                    int id = M.edge[m[x]][e];
                    become(m[x], id);
                    if (c & 2)
                        s[x] = s[x]->next[e].get();
                    else
                        s[x] = s[x]->next[e];
                    probe("child");
                }
                break;
            case CHILDMOVE:
                if (m[x] && M.alone) {
                    int e = (int)(c & 1);
                    int parent = m[x], id = M.edge[parent][e];
                    M.edge[parent][e] = 0;
                    m[x] = id;
                    disown(parent);
                    if (c & 2)
                        s[x] = std::move(s[x]->next[e]);
                    else
                        s[x] = s[x]->next[e].forget();
                }
                break;
            case COPYCTOR: {
                int id = m[x];
                own(id);
                {
                    P tmp(s[x]);
                    alive(tmp.get(), id);
                    if (c & 1) {
                        become(m[x], 0);
                        s[x] = nullptr;
                    }
                    alive(tmp.get(), id);
                    become(m[y], id);
                    s[y] = tmp;
                    alive(tmp.get(), id);
                    disown(id);
                }
                break;
            }
            case MOVECTOR: {
                int id = m[x];
                m[x] = 0;
                {
                    P tmp(std::move(s[x]));
                    alive(s[x].get(), 0);
                    alive(tmp.get(), id);
                    become(m[y], id);
                    s[y] = c & 1 ? through(tmp) : tmp;
                    disown(id);
                }
                break;
            }
            case HANDOUT: { // forget, then keep or drop
                int id = m[x];
                m[x] = 0;
                ke::AlreadyRefed<N> a = c & 1 ? s[x].forget() : s[x].take();
                alive(s[x].get(), 0);
                alive(a.operator->(), id);
                SIM_EXPECT(!a == !id, "wrong-value", "operator! of AlreadyRefed is wrong");
                if (c & 2) {
                    pass(m[y], id);
                    s[y] = a;
                    alive(a.operator->(), 0);
                } else if (c & 4) {
                    P tmp(a);
                    alive(tmp.get(), id);
                    alive(a.operator->(), 0);
                    disown(id);
                } else {
                    disown(id);
                }
                break;
            }
            case ADOPT: { // raw pointer that carries a reference, out and back in
                int id = m[x];
                if (!id)
                    break;
                own(id);
                N* raw = give(s[x]).take();
                alive(raw, id);
                if (c & 1) {
                    ke::AlreadyRefed<N> a = ke::AdoptRef(raw);
                    SIM_EXPECT(a == raw && !(a != raw), "wrong-value", "AlreadyRefed compares wrong");
                    ke::AlreadyRefed<N> b(std::move(a));
                    alive(a.operator->(), 0);
                    alive(b.operator->(), id);
                    disown(id);
                } else {
                    pass(m[y], id);
                    s[y] = ke::AdoptRef(raw);
                }
                break;
            }
            case ALREADY: { // copies of an AlreadyRefed hold a reference each
                int id = m[x];
                m[x] = 0;
                ke::AlreadyRefed<N> a = s[x].forget();
                own(id);
                {
                    ke::AlreadyRefed<N> b(a);
                    alive(a.operator->(), id);
                    alive(b.operator->(), id);
                    if (c & 1) { // the original goes first
                        disown(id);
                        P tmp(a);
                        alive(tmp.get(), id);
                        alive(a.operator->(), 0);
                    }
                    alive(b.operator->(), id);
                    disown(id);
                }
                alive(a.operator->(), c & 1 ? 0 : id);
                if (!(c & 1))
                    disown(id);
                break;
            }
            case CONVERT: {
                int id = fresh();
                if (!id)
                    break;
                own(id);
                {
                    ke::RefPtr<D> d(new D(id, c >> 3, nullptr, nullptr));
                    SIM_EXPECT(d->tail == 77, "uaf", "derived part not alive");
                    if (c & 1) {
                        become(m[x], id);
                        s[x] = P(d);
                        alive(d.get(), id);
                        disown(id);
                    } else if (c & 2) {
                        pass(m[x], id);
                        s[x] = P(std::move(d));
                        SIM_EXPECT(!d.get(), "wrong-value", "converting move left a value behind");
                    } else if (c & 4) {
                        pass(m[x], id);
                        s[x] = d.forget(); // operator=(AlreadyRefed<S>)
                    } else {
                        become(m[x], id);
                        ke::AlreadyRefed<D> a = d.take();
                        P tmp(a); // RefPtr(AlreadyRefed<S>)
                        s[x] = tmp;
                        disown(id);
                    }
                }
                break;
            }
            case LINK:
                if (M.alone && m[x] && (!m[y] || m[y] < m[x])) {
                    int e = (int)(c & 1);
                    become(M.edge[m[x]][e], m[y]);
                    s[x]->next[e] = s[y];
                }
                break;
            case UNLINK:
                if (M.alone && m[x]) {
                    int e = (int)(c & 1);
                    become(M.edge[m[x]][e], 0);
                    s[x]->next[e] = nullptr;
                }
                break;
            case SWAP:
                std::swap(m[x], m[y]);
                std::swap(s[x], s[y]);
                break;
            case RAW:
                become(m[x], m[y]);
                s[x] = s[y].get();
                break;
            case BYREF: {
                int id = m[x];
                own(id);
                {
                    P out;
                    if (N* n = s[x].get())
                        n->AddRef();
                    if (c & 1)
                        *out.byref() = s[x].get();
                    else
                        *out.address() = s[x].get();
                    alive(*out, id);
                    disown(id);
                }
                break;
            }
            case OPS: {
                const P& p = s[x];
                N* n = p;
                alive(n, m[x]);
                SIM_EXPECT(!p == !m[x], "wrong-value", "operator! is wrong");
                SIM_EXPECT((p ? 1 : 0) == (m[x] ? 1 : 0), "wrong-value", "operator bool is wrong");
                SIM_EXPECT(*p.byref_const() == n && *p == n, "wrong-value", "accessors disagree");
                if (n) {
                    SIM_EXPECT(p->id == m[x], "wrong-value", "operator-> is wrong");
                    N& r = s[x];
                    SIM_EXPECT(&r == n, "wrong-value", "accessors disagree");
                }
                N* n2 = s[x];
                SIM_EXPECT(n2 == n && *s[x].byref() == n && s[x].get() == n, "wrong-value", "accessors disagree");
                {
                    ke::AlreadyRefed<N> none(nullptr);
                    P q(none);
                    SIM_EXPECT(!q && !none && none == nullptr, "wrong-value", "null is not null");
                    P z(ke::AdoptRef<N>(nullptr));
                    SIM_EXPECT(!z, "wrong-value", "null is not null");
                }
                break;
            }
            case UNWIND: {
                int id = m[x], id2 = m[y];
                own(id);
                own(id2);
                bool thrown = false;
                try {
                    P a(s[x]);
                    ke::AlreadyRefed<N> b = give(s[y]);
                    if (fault(F_CANCEL)) {
                        disown(id);
                        disown(id2);
                        thrown = true;
                        throw 1;
                    }
                    pass(m[x], id2);
                    s[x] = b;
                    if (fault(F_CANCEL)) {
                        disown(id);
                        thrown = true;
                        throw 2;
                    }
                    disown(id);
                } catch (int) {
                    SIM_EXPECT(thrown, "harness", "catch without throw");
                    probe("unwind");
                }
                break;
            }
            case CLONE: // a copy of an object has references of its own
                if constexpr (std::is_copy_constructible<Probe<K>>::value) {
                    int id = m[x] ? fresh() : 0;
                    if (!id)
                        break;
                    for (int e = 0; e < 2; e++) {
                        M.edge[id][e] = M.edge[m[x]][e];
                        own(M.edge[id][e]);
                    }
                    N* n = new N(*s[x].get(), id);
                    become(m[y], id);
                    s[y] = n;
                    probe("clone");
                }
                break;
            case ASSIGNOBJ: // and an object assigned to keeps its own
                if constexpr (std::is_copy_assignable<Probe<K>>::value) {
                    typedef typename Base<K, Node<K>>::type B;
                    if (!m[x] || !m[y])
                        break;
                    static_cast<B&>(*s[x].get()) = static_cast<const B&>(*s[y].get());
                    probe("assign-object");
                }
                break;
            case MANY: { // more references than a narrow count holds
                int id = m[x];
                if (!id)
                    break;
                int n = c % 16 == 0 ? 66000 : c % 4 ? 257 + (int)(c & 3) : 3;
                P* a;
                {
                    Quiet q;
                    a = new P[n];
                    M.owners[id] += n;
                    for (int i = 0; i < n; i++)
                        a[i] = s[x];
                }
                crash_point();
                become(m[x], m[y]);
                s[x] = s[y];
                alive(a[0].get(), id);
                {
                    Quiet q;
                    for (int i = 1; i < n; i++) {
                        M.owners[id]--;
                        a[i] = nullptr;
                        if (M.destroyed[id])
                            violation("early-destroy", "object %d destroyed although %d references to it are held",
                                      id, n - i);
                    }
                }
                alive(a[0].get(), id);
                disown(id);
                a[0] = nullptr;
                {
                    Quiet q;
                    delete[] a;
                }
                probe(n > 65536 ? "many64k" : "many");
                break;
            }
            case PUT: {
                std::lock_guard<std::mutex> l(board->lock);
                int i = (int)(c & 1);
                become(M.board[i], m[x]);
                board->p[i] = s[x];
                break;
            }
            case GET: {
                std::lock_guard<std::mutex> l(board->lock);
                int i = (int)(c & 1);
                become(m[x], M.board[i]);
                s[x] = board->p[i];
                probe("handover");
                break;
            }
        }
        for (int i = 0; i < kSlots; i++)
            check_slot(me, i);
        if (M.alone)
            settled();
    }

    static void settled() {
        for (int i = 1; i <= M.made; i++)
            SIM_EXPECT(M.destroyed[i] || M.owners[i], "leak", "object %d has no owner but was not destroyed", i);
    }

    static void begin(int t) {
        slots[t + 1] = new Slots;
        M.open[t + 1] = true;
    }
    static void end(int t) {
        int me = t + 1;
        for (int i = 0; i < kSlots; i++)
            check_slot(me, i);
        M.open[me] = false;
        for (int i = 0; i < kSlots; i++) {
            int id = M.slot[me][i];
            M.slot[me][i] = 0;
            disown(id);
        }
        delete slots[me];
    }

    static void run(const Program& p) {
        size_t base = live_blocks();
        int nt = K < 2 ? 1 : 1 + clampi(p.p(1), 3);
        M.alone = nt == 1;
        board = new Board;
        run_threads(p, nt, body, begin, end);
        set_no_preempt(true);
        disable_faults();
        bool dead = false;
        for (int t = 1; t <= nt; t++)
            dead |= crashed(t);
        if (dead) {
            probe("crash");
            return;
        }
        for (int i = 0; i < 2; i++)
            become(M.board[i], 0);
        delete board;
        settled();
        for (int i = 1; i <= M.made; i++)
            SIM_EXPECT(M.destroyed[i] == 1, "leak", "object %d was never destroyed", i);
        SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked (%s)", live_blocks() - base,
                   describe_live().c_str());
    }
};
template <int K>
ORACLE typename World<K>::Slots* World<K>::slots[kMaxT + 1];
template <int K>
ORACLE typename World<K>::Board* World<K>::board;

void gen(Rng& r, Program& p) {
    int kind = (int)r.below(4);
    int nt = kind < 2 ? 1 : (int)r.range(1, 3);
    p.params = {(int64_t)r.below(3), nt - 1, kind};
    int per = (int)r.range(3, nt == 1 ? 24 : 10);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            int c = r.chance(0.25) ? (int)r.below(2) : r.chance(nt > 1 ? 0.25 : 0.05) ? 20 + (int)r.below(2)
                                                                                      : (int)r.below(24);
            if (r.chance(0.01))
                c = 24; // MANY
            // mostly few slots, so that operands coincide
            int n = r.chance(0.5) ? 2 : kSlots;
            p.ops.push_back(mkop(t, c, (int64_t)r.below(n), (int64_t)r.below(n), (int64_t)r.below(1 << 12)));
        }
}
void run(const Program& p) {
    enable_fault(F_CRASH);
    enable_fault(F_CANCEL);
    switch (clampi(p.p(2), 4)) {
        case 0:
            World<0>::run(p);
            break;
        case 1:
            World<1>::run(p);
            break;
        case 2:
            World<2>::run(p);
            break;
        default:
            World<3>::run(p);
    }
}

SIM_SCENARIO(c05, "refptr", gen, run);

} // namespace
