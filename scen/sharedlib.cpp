// C14: SharedLib holds its library open exactly as long as it is referenced.
#include "buf.h"

#include <amtl/os/am-shared-library.h>

#include <dlfcn.h>

using namespace sim;
using namespace bufs;

namespace scen_sharedlib {

typedef ke::RefPtr<ke::SharedLib> Ref;

const int kMaxT = 4;
const int kSlots = 4;
const int kObjs = 128;

// Each thread has libraries of its own (reference counting is not thread safe here); the loader
// is shared.
struct Model {
    Oint obj[kSlots];   // 0: null
    Oint lib[kObjs];    // -1: none
    Oint refs[kObjs];
    Oint nobjs;
    Oint open[4];
};
ORACLE Model M[kMaxT];
ORACLE Ref* g_ref[kMaxT];  // arrays of kSlots

static void unref(Model& m, int s) {
    int o = m.obj[s];
    m.obj[s] = 0;
    if (o && --m.refs[o] == 0 && m.lib[o] >= 0)
        m.open[m.lib[o] & 3]--;
}
static int new_obj(Model& m, int lib) {
    int o = m.nobjs + 1;
    SIM_EXPECT(o < kObjs, "harness", "too many objects");
    m.nobjs = o;
    m.lib[o] = lib;
    m.refs[o] = 1;
    return o;
}
static void check_open(int t, const char* when) {
    for (int i = 0; i < 4; i++) {
        int n = lib_open_count(t * 4 + i);
        SIM_EXPECT(n == M[t].open[i], n > M[t].open[i] ? "not-closed" : "closed-early",
                   "%s: the loader holds library %d open %d times, SharedLib objects exist for %d", when, i, n, (int)M[t].open[i]);
    }
}
static void check_slot(int t, int s) {
    Model& m = M[t];
    Ref& r = g_ref[t][s];
    SIM_EXPECT(!r == !m.obj[s], "reference", "the reference is %s", r ? "not null" : "null");
    if (r) {
        bool v = m.lib[m.obj[s]] >= 0;
        SIM_EXPECT(r->valid() == v && (bool)**r == v, "valid", "valid() says %d, the library is %s", r->valid(), v ? "open" : "not open");
    }
}

enum { OPEN, OPEN2, OPENERR, OPENERR2, OPENQUIET, ADOPT, EMPTY, PATHCTOR, COPY, MOVE, RESET, LOOKUP, LOOKUP2, GET, LOCAL, FAILSYM, NOPS };

static void open_checked(int t, const Op& op, int s) {
    Model& m = M[t];
    int i = clampi(op.b, 4);
    char* name;
    std::string* said;
    {
        Quiet q;
        said = new std::string;
        std::string path = lib_name(t * 4 + i);
        if (op.b / 4 % 8 == 7)
            path = "/nowhere/" + std::string(clampi(op.c, 40), 'x') + ".so", i = 3;
        else if (op.b / 4 % 8 == 6)
            path = op.c & 16 ? "/nowhere/100%d%%.so" : "/nowhere/%s/%5$x.so", i = 3;
        else if (op.b / 4 % 8 == 5 && i != 3)
            path = "unresolved" + std::to_string(t * 4 + i) + ".so", i = 3;  // needs what nobody has
        else if (op.c / 8 % 4 == 3) {
            static const int dots[] = {10, 28, 32, 60, 100, 127, 128, 130, 256, 300, 512, 520, 1000, 2000, 2040, 2100};
            std::string pre;
            for (int k = dots[op.c / 32 % 16]; k > 0; k--)
                pre += "./";
            path = pre + path;
            probe("long-path");
        }
        name = (char*)arena_alloc(path.size() + 1);
        memcpy(name, path.c_str(), path.size() + 1);
    }
    uint32_t failed = thread_hits(F_DLOPEN);
    bool err = clampi(op.code, NOPS) == OPENERR || clampi(op.code, NOPS) == OPENERR2;
    static const size_t sizes[] = {0, 1, 2, 8, 20, 40, 63, 64, 80, 120, 200, 300, 520, 1024, 4300, 6000};
    Buf b = make_buf(err ? sizes[clampi(op.c / 64, 16)] : 0, op.c & 1);
    bool nomem = false;
    uint32_t mem = thread_hits(F_NEW);
    try {
        ke::AlreadyRefed<ke::SharedLib> r = err ? ke::SharedLib::Open(name, b.p, b.n)
                                            : op.c & 2 ? ke::SharedLib::Open(name) : ke::SharedLib::Open(name, nullptr, op.c & 4 ? 100 : 0);
        {
            Quiet q;  // (closing what the slot held may fail as well)
            *said = last_dlerror();
        }
        unref(m, s);
        g_ref[t][s] = r;
    } catch (std::bad_alloc&) {
        SIM_EXPECT(thread_hits(F_NEW) != mem, "spurious-exception", "Open() threw although there was memory");
        nomem = true;
        probe("no-memory");
    }
    check_guards(b, "Open()");
    if (!nomem) {
        bool fails = i == 3 || thread_hits(F_DLOPEN) != failed;
        Ref& r = g_ref[t][s];
        if (fails && thread_hits(F_DLOPEN) != failed && i != 3 && r)
            fails = false;  // a second attempt succeeded
        SIM_EXPECT(!!r == !fails, "open-result", "Open() returned %s although the loader %s", r ? "an object" : "null",
                   fails ? "failed" : "has the library");
        if (r) {
            m.open[i]++;
            m.obj[s] = new_obj(m, t * 4 + i);
            probe("opened");
        } else {
            probe("open-failed");
            if (b.n) {
                Quiet quiet;
                std::string want = *said;
                if (!memchr(b.p, 0, b.n))
                    violation("unterminated", "Open() left no terminated message in %zu bytes", b.n);
                if (!holds(b, strlen(b.p), want))
                    violation("message", "Open() says %s in %zu bytes, the loader said %s", show(b.p).c_str(), b.n, want.c_str());
                probe(b.n > want.size() ? "message" : "message-cut");
            }
        }
    }
    arena_free(b.block);
    arena_free(name);
    Quiet q;
    delete said;
}
// If a library object can be copied, it stays open until the last one is gone.
template <typename L>
static void copied(L& l) {
    if constexpr (std::is_copy_constructible<L>::value) {
        L c(l);
        probe("copied");
    }
}
static void body(int t, const Op& op) {
    Model& m = M[t];
    int s = clampi(op.a, kSlots);
    int i = clampi(op.b, 4);
    switch (clampi(op.code, NOPS)) {
        case OPEN:
        case OPEN2:
        case OPENERR:
        case OPENERR2:
        case OPENQUIET:
            open_checked(t, op, s);
            break;
        case ADOPT: {
            if (i == 3)
                break;
            void* h = lib_raw_open(t * 4 + i);
            m.open[i]++;
            try {
                Ref r = new ke::SharedLib(h);
                unref(m, s);
                g_ref[t][s] = std::move(r);
                m.obj[s] = new_obj(m, t * 4 + i);
                probe("adopted");
            } catch (std::bad_alloc&) {
                dlclose(h);
                m.open[i]--;
            }
            break;
        }
        case EMPTY:
            try {
                Ref r = new ke::SharedLib();
                unref(m, s);
                g_ref[t][s] = r;
                m.obj[s] = new_obj(m, -1);
            } catch (std::bad_alloc&) {
            }
            break;
        case PATHCTOR: {
            uint32_t failed = thread_hits(F_DLOPEN);
            try {
                Ref r = new ke::SharedLib(lib_name(t * 4 + i));
                bool ok = i != 3 && thread_hits(F_DLOPEN) == failed;
                SIM_EXPECT(r->valid() == ok || (r->valid() && i != 3), "open-result", "the constructor's library is %s",
                           r->valid() ? "valid" : "not valid");
                ok = r->valid();
                unref(m, s);
                g_ref[t][s] = r;
                if (ok)
                    m.open[i]++;
                m.obj[s] = new_obj(m, ok ? t * 4 + i : -1);
            } catch (std::bad_alloc&) {
            }
            break;
        }
        case COPY:
        case MOVE: {
            int d = clampi(op.b, kSlots);
            if (d == s)
                break;
            bool mv = clampi(op.code, NOPS) == MOVE;
            int o = m.obj[s];
            if (o)
                m.refs[o]++;
            unref(m, d);
            m.obj[d] = o;
            if (mv) {
                unref(m, s);
                g_ref[t][d] = std::move(g_ref[t][s]);
            } else {
                g_ref[t][d] = g_ref[t][s];
            }
            check_slot(t, d);
            break;
        }
        case RESET:
            unref(m, s);
            g_ref[t][s] = nullptr;
            break;
        case LOOKUP:
        case LOOKUP2:
        case GET:
        case FAILSYM: {
            Ref& r = g_ref[t][s];
            if (!r || m.lib[m.obj[s]] < 0)
                break;
            int y = clampi(op.b, 9);
            char* name;
            {
                Quiet q;
                std::string n = y == 8 ? std::string("nosuch") : "sym" + std::to_string(y);
                if (op.c % 8 == 5) {  // decorated, as the names of templates are
                    static const int ls[] = {28, 60, 124, 130, 252, 300, 508, 600, 1020, 1100, 3000, 4100};
                    n += std::string(ls[op.c / 8 % 12], 'x');
                    if (op.c / 128 % 4 == 1) {
                        n += "y";  // which no library has
                        y = 8;
                    }
                    probe("long-symbol");
                }
                name = (char*)arena_alloc(n.size() + 1);
                memcpy(name, n.c_str(), n.size() + 1);
            }
            uint32_t failed = thread_hits(F_DLSYM);
            void* p = clampi(op.code, NOPS) == GET ? (void*)r->get<int (*)(int)>(name) : r->lookup(name);
            void* want = y == 8 ? nullptr : lib_symbol(m.lib[m.obj[s]], y);
            if (thread_hits(F_DLSYM) != failed && !p)
                want = nullptr;
            SIM_EXPECT(p == want, "lookup", "lookup(%s) in library %d returned %s", name, m.lib[m.obj[s]] & 3,
                       p ? want ? "something else" : "something it does not have" : "null");
            probe(p ? "symbol" : "no-symbol");
            arena_free(name);
            break;
        }
        case LOCAL: {
            uint32_t failed = thread_hits(F_DLOPEN);
            {
                ke::SharedLib l(lib_name(t * 4 + i));
                bool ok = l.valid();
                SIM_EXPECT(ok == (i != 3 && thread_hits(F_DLOPEN) == failed) || (ok && i != 3), "open-result", "a local SharedLib is %s",
                           ok ? "valid" : "not valid");
                if (ok)
                    m.open[i]++;
                check_open(t, "with a local SharedLib");
                if (ok && (op.c & 2)) {
                    copied(l);
                    check_open(t, "after a copy of a local SharedLib");
                }
                if (ok) {
                    m.open[i]--;
                    SIM_EXPECT(l.lookup("sym0") == lib_symbol(t * 4 + i, 0) || thread_hits(F_DLSYM), "lookup", "wrong symbol");
                }
            }
            break;
        }
    }
    check_slot(t, s);
    check_open(t, "after an operation");
}
static void run(const Program& p) {
    {
        Quiet q;
        memset((void*)M, 0, sizeof(M));
        memset((void*)g_ref, 0, sizeof(g_ref));
    }
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    for (int t = 0; t < nt; t++)
        g_ref[t] = new Ref[kSlots];
    enable_fault(F_DLOPEN);
    enable_fault(F_DLSYM);
    enable_fault(F_DLCLOSE);
    enable_fault(F_NEW);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int t = 0; t < nt; t++) {
        for (int s = 0; s < kSlots; s++)
            unref(M[t], s);
        delete[] g_ref[t];
        check_open(t, "at the end");
    }
    SIM_EXPECT(lib_handles_open() == 0, "not-closed", "%d handles were never closed", lib_handles_open());
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 3 + (int)r.below(20);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(NOPS), (int64_t)r.below(kSlots), (int64_t)r.below(64), (int64_t)r.below(1 << 12)));
    }
}
SIM_SCENARIO(sharedlib, "sharedlib", gen, run);
}  // namespace scen_sharedlib
