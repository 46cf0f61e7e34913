// C24: a ke::InlineList links exactly the nodes put into it.
#include "common.h"

#include <amtl/am-inlinelist.h>
#include <amtl/am-mutex.h>

#include <mutex>

using namespace sim;

namespace scen_inlinelist {

const int kMaxT = 4;
const int kLists = 3;
const int kNodes = 700;
const int kFree = -1;  // in no list, anybody's
const int kHeld = -2;  // in no list, some thread's

struct Base {
    int64_t pad;  // so that the links are not where the object starts
    Base() : pad(0x5eed) {}
    virtual ~Base() {}
};
struct Node : public Base, public ke::InlineListNode<Node> {
    int id;
    int64_t mark;
    explicit Node(int i) : id(i), mark(~(int64_t)i) {}
};
typedef ke::InlineList<Node> List;

ORACLE List* g_list[kLists];
ORACLE Node* g_node[kNodes];
ORACLE ke::Mutex* g_lock[kLists];
ORACLE ke::Mutex* g_pool_lock;
ORACLE std::vector<int>* g_model[kLists];
ORACLE Oint g_where[kNodes];
// Nodes that took themselves out: the list cannot know (a known finding), so its length() may count them.
ORACLE Oi64 g_gone[kLists];
ORACLE Obool g_strict;
ORACLE Oint g_nodes;

__attribute__((noinline)) static size_t m_size(int l) {
    Quiet q;
    return g_model[l]->size();
}
__attribute__((noinline)) static int m_at(int l, size_t i) {
    Quiet q;
    return (*g_model[l])[i];
}
__attribute__((noinline)) static void m_add(int l, int n) {
    Quiet q;
    g_model[l]->push_back(n);
    g_where[n] = l;
}
__attribute__((noinline)) static void m_del(int l, int n, int to) {
    Quiet q;
    for (size_t i = 0; i < g_model[l]->size(); i++) {
        if ((*g_model[l])[i] == n) {
            g_model[l]->erase(g_model[l]->begin() + i);
            g_where[n] = to;
            return;
        }
    }
    violation("harness", "node %d is not in list %d", n, l);
}
static void same(Node* got, int l, size_t i, const char* how) {
    SIM_EXPECT(i < m_size(l), "walk", "a walk %s goes on behind the end", how);
    SIM_EXPECT(got == g_node[m_at(l, i)], "walk", "a walk %s shows another node than was put in at %zu of %zu", how, i, m_size(l));
    SIM_EXPECT(got->mark == ~(int64_t)got->id && got->id == m_at(l, i) && got->pad == 0x5eed, "walk", "a walk %s shows a damaged node", how);
}
static void check(int l) {
    List& list = *g_list[l];
    size_t n = m_size(l), i = 0;
    SIM_EXPECT(list.empty() == (n == 0), "empty", "a list of %zu says it is %sempty", n, list.empty() ? "" : "not ");
    size_t gone = (size_t)g_gone[l];
    if (g_strict)
        SIM_EXPECT(!gone || list.length() != n + gone, "length", "length() counts nodes that removed themselves: %zu instead of %zu", n + gone, n);
    SIM_EXPECT(list.length() == n || list.length() == n + gone, "length", "a list of %zu says its length is %zu", n, list.length());
    for (List::iterator it = list.begin(); it != list.end();) {
        if (i & 1) {
            same(*it, l, i++, "forward");
            ++it;
        } else {
            List::iterator at = it++;
            SIM_EXPECT(at != it && !(at == it) && at == List::iterator(at), "walk", "iterators compare wrong");
            same(at.operator->(), l, i++, "forward");
        }
    }
    SIM_EXPECT(i == n, "walk", "a walk forward shows %zu of %zu nodes", i, n);
    for (List::reverse_iterator it = list.rbegin(); it != list.rend();) {
        if (i & 1) {
            same(*it, l, --i, "backward");
            ++it;
        } else {
            List::reverse_iterator at = it++;
            SIM_EXPECT(at != it && !(at == it) && at == List::reverse_iterator(at), "walk", "iterators compare wrong");
            same(at.operator->(), l, --i, "backward");
        }
    }
    SIM_EXPECT(i == 0, "walk", "a walk backward misses %zu of %zu nodes", i, n);
}
static void out(Node* n) {
    SIM_EXPECT(!n->isInList(), "is-in-list", "a node that was removed says it is in a list");
}

enum { APPEND, APPENDMANY, REMOVE, REMOVEHEAD, SELFREMOVE, ERASE, RERASE, ERASEALL, WALK, MOVETO, SPLICE, RECREATE, REBORN, COPYNODE, ASSIGNNODE, NOPS };

// Takes a free node.
static Node* claim(int64_t which) {
    std::lock_guard<ke::Mutex> l(*g_pool_lock);
    for (int k = 0; k < g_nodes; k++) {
        int n = (clampi(which, g_nodes) + k) % (int)g_nodes;
        if (g_where[n] == kFree) {
            g_where[n] = kHeld;
            return g_node[n];
        }
    }
    return nullptr;
}
static void give_back(int n) {
    std::lock_guard<ke::Mutex> l(*g_pool_lock);
    out(g_node[n]);
    g_where[n] = kFree;
}
static void append(int l, Node* n) {
    g_list[l]->append(n);
    m_add(l, n->id);
    SIM_EXPECT(n->isInList(), "is-in-list", "a node in a list says it is in none");
}
// A copy of a node was put into no list.
template <typename N>
static void copy_node(List& list, N* n) {
    if constexpr (std::is_copy_constructible<N>::value) {
        N* c = new N(*n);
        probe("copied");
        SIM_EXPECT(!c->isInList(), "is-in-list", "a copy of a node says it is in a list");
        list.append(c);
        SIM_EXPECT(n->isInList() && c->isInList(), "is-in-list", "a node in a list says it is in none");
        list.remove(c);
        delete c;
    }
}
// A copy of a list, if one can be made, takes nothing away from the list.
template <typename L>
static void copy_list(L& list) {
    if constexpr (std::is_copy_constructible<L>::value) {
        L* c = new L(list);
        SIM_EXPECT(c->empty() && c->begin() == c->end() && c->length() == 0, "copy", "a copy of a list pretends to hold nodes, which are in the list copied");
        delete c;
        probe("list-copied");
    }
}
template <typename N>
static void assign_node(N* to, N* from) {
    typedef ke::InlineListNode<N> Link;
    if constexpr (std::is_copy_assignable<Link>::value) {
        static_cast<Link&>(*to) = static_cast<const Link&>(*from);
        probe("assigned");
    }
}
static bool victim(int id, int64_t c) {
    return (c >> (id % 8)) & 1;
}
template <typename It>
static void erase_some(int l, int64_t c, It at, It end, bool forward) {
    List& list = *g_list[l];
    size_t i = forward ? 0 : m_size(l);
    while (at != end) {
        int id = at->id;
        if (forward)
            same(*at, l, i, "that erases");
        else
            same(*at, l, i - 1, "backward that erases");
        if (victim(id, c)) {
            at = list.erase(at);
            m_del(l, id, kHeld);
            give_back(id);
            if (!forward)
                i--;
            probe("erased");
        } else {
            ++at;
            i += forward ? 1 : -1;
        }
    }
    SIM_EXPECT(forward ? i == m_size(l) : i == 0, "walk", "a walk that erases ends early");
}
static void body(int, const Op& op) {
    crash_point();
    int l = clampi(op.a, kLists), code = clampi(op.code, NOPS);
    if (code == MOVETO || code == SPLICE) {
        int d = clampi(op.b, kLists);
        if (d == l)
            return;
        std::lock_guard<ke::Mutex> l1(*g_lock[l < d ? l : d]);
        std::lock_guard<ke::Mutex> l2(*g_lock[l < d ? d : l]);
        do {
            if (!m_size(l))
                break;
            int id = m_at(l, code == SPLICE ? 0 : clampi(op.c, (int)m_size(l)));
            Node* n = g_node[id];
            g_list[l]->remove(n);
            m_del(l, id, kHeld);
            out(n);
            append(d, n);
            probe("moved");
        } while (code == SPLICE);
        check(l);
        check(d);
        return;
    }
    std::lock_guard<ke::Mutex> lock(*g_lock[l]);
    List& list = *g_list[l];
    switch (code) {
        case APPEND:
        case APPENDMANY:
            for (int k = code == APPEND ? 0 : clampi(op.b, 5) * (g_nodes > 300 ? 60 : g_nodes > 14 ? 20 : 1); k >= 0; k--) {
                Node* n = claim(op.c + k);
                if (!n)
                    break;
                out(n);
                append(l, n);
            }
            break;
        case REMOVE:
        case REMOVEHEAD:
        case SELFREMOVE: {
            if (!m_size(l))
                break;
            int id = m_at(l, code == REMOVEHEAD ? 0 : clampi(op.c, (int)m_size(l)));
            Node* n = g_node[id];
            SIM_EXPECT(n->isInList(), "is-in-list", "a node in a list says it is in none");
            if (code == SELFREMOVE) {
                n->removeFromParentList();
                g_gone[l]++;
                probe("self-removed");
            } else {
                list.remove(n);
            }
            m_del(l, id, kHeld);
            give_back(id);
            break;
        }
        case ERASE:
            erase_some(l, op.c, list.begin(), list.end(), true);
            break;
        case RERASE:
            erase_some(l, op.c, list.rbegin(), list.rend(), false);
            break;
        case ERASEALL:
            for (List::iterator it = list.begin(); it != list.end();) {
                int id = it->id;
                it = list.erase(it);
                m_del(l, id, kHeld);
                give_back(id);
            }
            SIM_EXPECT(list.empty(), "empty", "a list is not empty after all was erased");
            break;
        case WALK:
            break;
        case RECREATE: {
            // A list may go away before its nodes do, if they are not used any more either.
            std::vector<int>* left;
            {
                Quiet q;
                left = new std::vector<int>(*g_model[l]);
            }
            delete g_list[l];
            for (int id : *left) {
                g_node[id]->~Node();
                new (g_node[id]) Node(id);
                m_del(l, id, kHeld);
                give_back(id);
                probe("orphaned");
            }
            g_list[l] = new List;
            g_gone[l] = 0;
            {
                Quiet q;
                delete left;
            }
            break;
        }
        case COPYNODE:
            if (op.b & 1)
                copy_list(list);
            if (m_size(l))
                copy_node(list, g_node[m_at(l, clampi(op.c, (int)m_size(l)))]);
            break;
        case ASSIGNNODE: {
            if (!m_size(l))
                break;
            Node* free = op.c & 1 ? claim(op.c) : nullptr;
            assign_node(g_node[m_at(l, clampi(op.b, (int)m_size(l)))], free ? free : g_node[m_at(l, clampi(op.c, (int)m_size(l)))]);
            if (free) {
                assign_node(free, g_node[m_at(l, clampi(op.b, (int)m_size(l)))]);
                give_back(free->id);
            }
            break;
        }
        case REBORN: {
            Node* n = claim(op.c);
            if (!n)
                break;
            int id = n->id;
            delete n;
            g_node[id] = new Node(id);
            give_back(id);
            break;
        }
    }
    check(l);
}
// A list of more nodes than 16 bits can count.
static void giant() {
    struct Small : public ke::InlineListNode<Small> {};
    typedef ke::InlineList<Small> SmallList;
    const size_t kMany = 65536 + 40;
    Small* nodes = new Small[kMany];
    SmallList* list = new SmallList;
    for (size_t i = 0; i < kMany; i++)
        list->append(&nodes[i]);
    SIM_EXPECT(list->length() == kMany && !list->empty(), "length", "a list of %zu says its length is %zu", kMany, list->length());
    for (size_t i = 0; i < 40; i++)
        list->remove(&nodes[i * 1000]);
    SIM_EXPECT(list->length() == kMany - 40 && !list->empty(), "length", "a list of %zu says its length is %zu", kMany - 40, list->length());
    for (size_t i = 0; i < 100; i++)
        if (nodes[kMany - 1 - i].isInList())
            list->remove(&nodes[kMany - 1 - i]);
    size_t n = 0;
    for (SmallList::iterator it = list->begin(); it != list->end(); ++it)
        n++;
    SIM_EXPECT(list->length() == n, "length", "a list of %zu says its length is %zu", n, list->length());
    probe("giant");
    delete list;
    delete[] nodes;
}
static void run_mode(const Program& p, bool strict) {
    {
        Quiet q;
        g_nodes = clampi(p.p(2), 8) ? 100 + clampi(p.p(2), 8) * 85 : 14;
        for (int l = 0; l < kLists; l++) {
            g_model[l] = new std::vector<int>;
            g_gone[l] = 0;
        }
        for (int n = 0; n < g_nodes; n++)
            g_where[n] = kFree;
        g_strict = strict;
    }
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(20000000);
    for (int l = 0; l < kLists; l++) {
        g_list[l] = new List;
        g_lock[l] = new ke::Mutex;
    }
    g_pool_lock = new ke::Mutex;
    for (int n = 0; n < g_nodes; n++)
        g_node[n] = new Node(n);
    enable_fault(F_CRASH);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int l = 0; l < kLists; l++) {
        std::lock_guard<ke::Mutex> lock(*g_lock[l]);
        check(l);
    }
    {
        std::lock_guard<ke::Mutex> lock(*g_pool_lock);
        for (int n = 0; n < g_nodes; n++)
            SIM_EXPECT(g_node[n]->isInList() == (g_where[n] >= 0), "is-in-list", "a node says it is %s a list", g_where[n] >= 0 ? "not in" : "in");
    }
    if (p.p(3) & 1)
        giant();
    for (int t = 1; t <= nt; t++) {
        if (crashed(t)) {
            probe("crash");
            return;
        }
    }
    for (int l = 0; l < kLists; l++) {
        delete g_list[l];
        delete g_lock[l];
    }
    for (int n = 0; n < g_nodes; n++)
        delete g_node[n];
    delete g_pool_lock;
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void run(const Program& p) {
    run_mode(p, false);
}
static void run_strict(const Program& p) {
    run_mode(p, true);
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, r.chance(0.03) ? 1 + (int64_t)r.below(7) : 0, r.chance(0.002)};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(20);
        for (int k = 0; k < n; k++) {
            int code = (int)(r.below(3) ? r.below(NOPS) : r.below(2));
            p.ops.push_back(mkop(t, code, (int64_t)r.below(kLists), (int64_t)r.below(15), (int64_t)r.below(256)));
        }
    }
}
SIM_SCENARIO(inlinelist, "inlinelist", gen, run);
SIM_SCENARIO(strict, "inlinelist_strict", gen, run_strict);
}  // namespace scen_inlinelist
