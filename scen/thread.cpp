// C09: NewThread and SetThreadName.
//
// Several threads start named threads with callables and arguments of many kinds, and destroy or
// overwrite the name and the arguments as soon as NewThread returns; creation and naming may fail.
#include "common.h"

#include <functional>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <thread>

#include <amtl/am-thread.h>

using namespace sim;

namespace scen_thread {

const int kJobs = 8;
const int kMaxT = 3;

struct Job {
    Oint runs;
    Oint tid;        // where it ran
    Oint spawner;
    Obool started;   // NewThread returned
    Obool failed;    // NewThread threw
    Obool done;
    char want[40];
    char inherited[40]; // the name of the thread that starts it
    char renamed[40]; // by somebody else, "" if never
    Ou64 expect;
    Ou64 got;
    Obool name_checked;
};
struct Model {
    Job job[kJobs];
    Oint made;
    Oi64 tokens;
    Obool fragile[64];  // copying a Token may fail on this thread
};
ORACLE Model M;

struct Cancel {};
void may_fail() {
    if (!M.fragile[self()])
        return;
    point();
    if (fault(F_CANCEL)) {
        Quiet q;
        throw Cancel();
    }
}

// Counts its copies.
struct Token {
    uint64_t v;
    explicit Token(uint64_t v) : v(v) { M.tokens++; }
    Token(const Token& o) : v((may_fail(), o.v)) { M.tokens++; }
    Token(Token&& o) : v(o.v) {
        M.tokens++;
        o.v = 0xbad;
    }
    ~Token() {
        M.tokens--;
        v = 0xdead;
    }
    Token& operator=(const Token&) = default;
};

void arrive(int j, uint64_t got) {
    Job& job = M.job[j];
    int me = self();
    job.runs++;
    job.tid = me;
    job.got = got;
    SIM_EXPECT(job.runs == 1, "once", "the callable of thread %d ran %d times", j, (int)job.runs);
    SIM_EXPECT(me != job.spawner, "once", "the callable of thread %d ran on the thread that started it", j);
    SIM_EXPECT(got == job.expect, "arguments", "the callable of thread %d received %llx instead of %llx", j,
               (unsigned long long)got, (unsigned long long)job.expect);
    const char* now = thread_name(me);
    if (strlen(job.want) > 15 || thread_hits(F_SETNAME)) {
        // The system refuses it; it may have been given what it does take.
        SIM_EXPECT(!strcmp(now, job.inherited) || !strncmp(now, job.want, strlen(now)) ||
                       (job.renamed[0] && !strcmp(now, job.renamed)),
                   "name", "thread %d is named '%s' when its callable starts, neither '%s' nor the name it was born with",
                   j, now, job.want);
        SIM_EXPECT(setname_calls(me) > 0, "name", "nobody asked for thread %d to be named '%s'", j, job.want);
        probe("unnamed");
    } else {
        SIM_EXPECT(!strcmp(now, job.want) || (job.renamed[0] && !strcmp(now, job.renamed)), "name",
                   "thread %d is named '%s' when its callable starts, should be '%s'", j, now, job.want);
        probe("named");
    }
}
void leave(int j) {
    M.job[j].done = true;
}

void free_fn(int j, uint64_t a, Token t) {
    arrive(j, a + t.v);
    point();
    leave(j);
}
struct Obj {
    uint64_t base;
    void method(int j, const Token& t) {
        arrive(j, base + t.v);
        leave(j);
    }
};
struct Functor {
    Token t;
    int j;
    void operator()(const std::string& s, uint64_t x) {
        arrive(j, t.v + x + s.size());
        point();
        leave(j);
    }
};

typedef std::unique_ptr<std::thread> Th;
ORACLE Th* g_th; // kJobs, of their spawners
ORACLE Obj* g_obj;

enum { START, START2, JOIN, RENAME, SELFNAME, NOPS };

static const char* const kNames[] = {"w", "worker", "exactly15chars_", "sixteen_chars_xx", "", "a name with sp",
                                     "this name is far too long for the system to take", "n%d%s",
                                     "thread pool of the resolver: worker 1 of 16, which has nothing to do but to wait for the next query to come "
                                     "in, and while it waits, its name is here for everybody to read, and it is as long as a name can be without "
                                     "getting boring: more than two hundred and fifty-five bytes"};
const int kNNames = sizeof(kNames) / sizeof(kNames[0]);

void start(int me, const Op& op) {
    if (M.made >= kJobs)
        return;
    int j = M.made++;
    Job& job = M.job[j];
    job.spawner = me;
    job.tid = -1;
    int kind = clampi(op.a, 6);
    uint64_t x = 1000 + (uint64_t)clampi(op.b, 100);
    const char* name = kNames[clampi(op.c, kNNames)];
    size_t room = strlen(name) + 1;
    char* buf = (char*)arena_alloc(room);
    memcpy(buf, name, room);
    {
        Quiet q;
        snprintf(job.want, sizeof(job.want), "%s", name);
        snprintf(job.inherited, sizeof(job.inherited), "%s", thread_name(me));
    }
    uint32_t h = thread_hits(F_THREADCREATE), h_new = thread_hits(F_NEW), h_copy = thread_hits(F_CANCEL);
    M.fragile[me] = true;
    try {
        switch (kind) {
            case 0: {
                job.expect = x + 7;
                Token t(7);
                g_th[j] = ke::NewThread(buf, free_fn, j, x, t);
                t.v = 0;
                break;
            }
            case 1: {
                job.expect = g_obj->base + 5;
                Token t(5);
#if defined(SIM_LITE)
                g_th[j] = ke::NewThread(buf, [](Obj* o, int j, const Token& t) { o->method(j, t); }, g_obj, j, t);
#else
                g_th[j] = ke::NewThread(buf, &Obj::method, g_obj, j, t);
#endif
                t.v = 0;
                break;
            }
            case 2: {
                std::string s("four");
                job.expect = x + 9 + 4;
                Functor f{Token(9), j};
                g_th[j] = ke::NewThread(buf, f, s, x);
                f.t.v = 0;
                s = "others";
                break;
            }
            case 3: {
                job.expect = x + 3;
                Token t(x + 3);
                g_th[j] = ke::NewThread(buf, [t, j]() {
                    arrive(j, t.v);
                    leave(j);
                });
                break;
            }
            case 4: {
                job.expect = x;
                std::function<void()> fn = [j, x]() {
                    arrive(j, x);
                    point();
                    leave(j);
                };
                g_th[j] = ke::NewThread(buf, std::move(fn));
                break;
            }
            default: {
                job.expect = x;
                std::unique_ptr<uint64_t> u(new uint64_t(x));
#if defined(SIM_LITE)
                auto fn = [j](auto&& u) {
#else
                auto fn = [j](std::unique_ptr<uint64_t>& u) {
#endif
                    arrive(j, *u);
                    leave(j);
                };
                g_th[j] = ke::NewThread(buf, fn, std::move(u));
                break;
            }
        }
    } catch (const std::system_error&) {
        SIM_EXPECT(thread_hits(F_THREADCREATE) > h, "create", "NewThread failed although the system created the thread");
        SIM_EXPECT(job.runs == 0, "once", "the callable ran although NewThread failed");
        job.failed = true;
        probe("create-failed");
    } catch (const std::bad_alloc&) {
        SIM_EXPECT(thread_hits(F_NEW) > h_new, "create", "NewThread ran out of memory although there was enough");
        SIM_EXPECT(job.runs == 0, "once", "the callable ran although NewThread failed");
        job.failed = true;
        probe("no-memory");
    } catch (const Cancel&) {
        SIM_EXPECT(thread_hits(F_CANCEL) > h_copy, "create", "NewThread failed although nothing did");
        SIM_EXPECT(job.runs == 0, "once", "the callable ran although NewThread failed");
        job.failed = true;
        probe("copy-failed");
    }
    M.fragile[me] = false;
    memset(buf, '!', room);
    arena_free(buf);
    if (job.failed)
        return;
    SIM_EXPECT(thread_hits(F_THREADCREATE) == h, "create", "NewThread succeeded although the thread was not created");
    job.started = true;
    SIM_EXPECT(g_th[j] != nullptr && g_th[j]->joinable(), "create", "NewThread returned no running thread");
    int tid = thread_by_handle((unsigned long)g_th[j]->native_handle());
    SIM_EXPECT(tid >= 0 && (job.tid == -1 || job.tid == tid), "create",
               "NewThread returned a thread other than the one that runs the callable");
}

void finish(int j) {
    Job& job = M.job[j];
    int tid = thread_by_handle((unsigned long)g_th[j]->native_handle());
    g_th[j]->join();
    SIM_EXPECT(job.runs == 1 && job.done, "once", "the callable of thread %d had not run when the thread ended", j);
    SIM_EXPECT(job.tid == tid, "create", "the callable ran on another thread than the one joined");
    g_th[j].reset();
}

void body(int t, const Op& op) {
    int me = t + 1;
    switch (clampi(op.code, NOPS)) {
        case START:
        case START2:
            start(me, op);
            break;
        case JOIN:
            for (int j = 0; j < M.made; j++)
                if (M.job[j].spawner == me && M.job[j].started && g_th[j]) {
                    finish(j);
                    break;
                }
            break;
        case RENAME:
            for (int j = 0; j < M.made; j++)
                if (M.job[j].spawner == me && M.job[j].started && g_th[j]) {
                    int tid = thread_by_handle((unsigned long)g_th[j]->native_handle());
                    char mine[40];
                    strcpy(mine, thread_name(me));
                    {
                        Quiet q;
                        strcpy(M.job[j].renamed, "renamed");
                    }
                    uint32_t h = thread_hits(F_SETNAME);
                    uint32_t n0 = setname_calls(tid);
                    ke::SetThreadName(g_th[j].get(), "renamed");
                    bool same = !strcmp(thread_name(tid), "renamed");
                    if (thread_hits(F_SETNAME) == h && setname_calls(tid) == n0 + 1)
                        SIM_EXPECT(same, "name", "SetThreadName had no effect");
                    SIM_EXPECT(!strcmp(mine, thread_name(me)), "name", "SetThreadName renamed the calling thread");
                    SIM_EXPECT(setname_calls(tid) > n0, "name", "SetThreadName did not name its thread");
                    probe("renamed");
                    break;
                }
            break;
        case SELFNAME: {
            const char* n = op.a & 1 ? "self" : "spawner";
            uint32_t h = thread_hits(F_SETNAME);
            ke::SetThreadName(n);
            if (thread_hits(F_SETNAME) == h)
                SIM_EXPECT(!strcmp(thread_name(me), n), "name", "SetThreadName had no effect on the calling thread");
            break;
        }
    }
}
void end(int t) {
    for (int j = 0; j < M.made; j++)
        if (M.job[j].spawner == t + 1 && M.job[j].started && g_th[j])
            finish(j);
}

void run(const Program& p) {
    size_t base = live_blocks();
    set_max_steps(200000);
    int nt = 1 + clampi(p.p(1), 3);
    g_th = new Th[kJobs];
    g_obj = new Obj;
    g_obj->base = 1000 + (uint64_t)clampi(p.p(2), 100);
    enable_fault(F_THREADCREATE);
    enable_fault(F_SETNAME);
    enable_fault(F_NEW);
    enable_fault(F_CANCEL);
    enable_fault(F_STALL);
    run_threads(p, nt, body, nullptr, end);
    set_no_preempt(true);
    disable_faults();
    for (int j = 0; j < M.made; j++)
        SIM_EXPECT(M.job[j].runs == (M.job[j].failed ? 0 : 1), "once", "the callable of thread %d ran %d times", j,
                   (int)M.job[j].runs);
    SIM_EXPECT(M.tokens == 0, "leak", "%ld copies of arguments were never destroyed", (long)M.tokens);
    delete[] g_th;
    delete g_obj;
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked (%s)", live_blocks() - base, describe_live().c_str());
}

void gen(Rng& r, Program& p) {
    int nt = (int)r.range(1, 3);
    p.params = {(int64_t)r.below(3), nt - 1, (int64_t)r.below(100)};
    int per = (int)r.range(1, 5);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) {
            int c = r.chance(0.5) ? 0 : (int)r.below(NOPS);
            int64_t b = (int64_t)r.below(100);
            p.ops.push_back(mkop(t, c, (int64_t)r.below(6), b, (int64_t)r.below(kNNames)));
        }
}

SIM_SCENARIO(c09, "thread", gen, run);

} // namespace
