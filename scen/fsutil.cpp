// C15: queries about files, and creating directories, while other threads change the files.
#include "common.h"

#include <amtl/os/am-fsutil.h>

#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sim;

namespace scen_fsutil {

const int kMaxT = 4;

// The same directory, at length.
#define P16 "././././././././././././././././"
#define P128 P16 P16 P16 P16 P16 P16 P16 P16
#define P1024 P128 P128 P128 P128 P128 P128 P128 P128
#define PMOST P1024 P128 P128 P128 P128 P128 P128 P128 P16 P16 P16 P16 P16 P16 P16  // about as long as a path may be

// All relative: the run has a scratch directory of its own as its working directory.
static const char* const kPath[] = {"a", "b", "d", "d/x", "d/y", "l", "l/x", "a/", "d/", ".", "d/../b", "", "none/z", "m",
                                    P16 "b", P128 "b", P128 P128 "d/x", P1024 "a", P1024 P1024 "a", PMOST "a", PMOST "d/", P1024 "l"};
const int NP = sizeof(kPath) / sizeof(kPath[0]);
static const char* const kMut[] = {"a", "b", "d", "d/x", "d/y", "l", "m", P128 "m", P16 P16 "b", P1024 "m", PMOST "n"};
const int NM = sizeof(kMut) / sizeof(kMut[0]);

enum { EXISTS = 1, REG = 2, DIR = 4 };
struct Snap {
    uint8_t f[NP];
};
ORACLE std::vector<Snap>* g_hist;      // what was true, from the beginning on
ORACLE Oint g_made[kMaxT + 2];         // directories created by the calls of this thread
ORACLE Oint g_step[kMaxT + 2];
ORACLE Oint g_umask;

static int raw_stat(const char* p, struct stat* s) {
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}
__attribute__((noinline)) static void snap() {
    Quiet q;
    Snap n;
    for (int i = 0; i < NP; i++) {
        struct stat s;
        n.f[i] = 0;
        if (raw_stat(kPath[i], &s) == 0)
            n.f[i] = EXISTS | (S_ISREG(s.st_mode) ? REG : 0) | (S_ISDIR(s.st_mode) ? DIR : 0);
    }
    g_hist->push_back(n);
}
static void changed(const char*) {
    int me = self();
    g_made[me]++;
    snap();
    g_step[me] = (int)g_hist->size();
}
__attribute__((noinline)) static int now() {
    Quiet q;
    return (int)g_hist->size() - 1;
}
// Whether |bit| was |want| at some moment since |from|.
__attribute__((noinline)) static bool was(int from, int path, int bit, bool want) {
    Quiet q;
    for (size_t i = from; i < g_hist->size(); i++)
        if (!!((*g_hist)[i].f[path] & bit) == want)
            return true;
    return false;
}

enum { Q_EXISTS, Q_FILE, Q_DIR, Q_EXISTS2, Q_FILE2, Q_DIR2, CREATE, CREATE2, CREATE3, M_FILE, M_DIR, M_DEL, M_REN, M_LINK, M_FIFO, M_DEL2, M_REN2, M_SOCK, M_SOCK2, NOPS };

static void query(int kind, int path) {
    static const char* const fn[] = {"PathExists", "IsFile", "IsDirectory"};
    static const int bits[] = {EXISTS, REG, DIR};
    int from = now();
    uint32_t faults = thread_hits(F_STAT);
    errno = 12345;
    bool r = kind == 0 ? ke::file::PathExists(kPath[path]) : kind == 1 ? ke::file::IsFile(kPath[path]) : ke::file::IsDirectory(kPath[path]);
    bool failed = thread_hits(F_STAT) != faults;
    if (failed)
        probe("query-failed");
    if (now() != from)
        probe("changed-meanwhile");
    if (r || !failed)
        SIM_EXPECT(was(from, path, bits[kind], r), r ? "wrong-yes" : "wrong-no", "%s(\"%s\") says %s, which was so at no moment of the call%s",
                   fn[kind], kPath[path], r ? "true" : "false", failed ? " (and the query failed)" : "");
    probe(r ? "yes" : "no");
}
static void create(const Op& op) {
    static const int modes[] = {0755, 0700, 0777, 0500, 0711, 0770, 01777, 0};
    int me = self();
    const char* path = kMut[clampi(op.a, NM)];
    int mode = modes[clampi(op.b, 8)];
    int before = g_made[me];
    bool dflt = op.c & 1;
    bool r = dflt ? ke::file::CreateDirectory(path) : ke::file::CreateDirectory(path, mode);
    if (dflt)
        mode = 0755;
    bool made = g_made[me] != before;
    SIM_EXPECT(g_made[me] - before <= 1, "create", "CreateDirectory created %d directories", g_made[me] - before);
    if (r != made) {
        if (r)
            violation("create", "CreateDirectory(\"%s\") says it created the directory, but it did not", path);
        violation("create", "CreateDirectory(\"%s\") created the directory and says it did not", path);
    }
    probe(r ? "created" : "not-created");
    if (made) {
        Quiet q;
        struct stat s;
        if ((int)g_hist->size() == g_step[me] && raw_stat(path, &s) == 0) {
            int got = s.st_mode & 07777, want = mode & ~g_umask;
            if (got != want)
                violation("permissions", "CreateDirectory(\"%s\", 0%o) made a directory with permissions 0%o (umask 0%o)", path, mode, got,
                          (int)g_umask);
            probe("permissions");
        }
    }
}
__attribute__((noinline)) static void mutate(int code, const Op& op) {
    Quiet q;
    const char* x = kMut[clampi(op.a, NM)];
    const char* y = kMut[clampi(op.b, NM)];
    long r = -1;
    switch (code) {
        case M_FILE: {
            static const int perms[] = {0644, 0200, 0, 0755, 04711, 0400, 0644, 0666};
            int fd = (int)syscall(SYS_openat, AT_FDCWD, x, O_CREAT | O_EXCL | O_WRONLY, perms[clampi(op.b, 8)]);
            if (fd >= 0) {
                if (op.c == 3)  // (all hole)
                    (void)!syscall(SYS_ftruncate, fd, op.b % 2 ? op.b % 3 ? 3ll << 30 : 5ll << 30 : 1);
                syscall(SYS_close, fd), r = 0;
            }
            break;
        }
        case M_DIR: {
            static const int perms[] = {0755, 0755, 0, 0300, 0444, 0755, 0755, 01777};
            r = syscall(SYS_mkdir, x, perms[clampi(op.b, 8)]);
            break;
        }
        case M_DEL:
        case M_DEL2:
            r = syscall(SYS_unlinkat, AT_FDCWD, x, 0);
            if (r)
                r = syscall(SYS_unlinkat, AT_FDCWD, x, AT_REMOVEDIR);
            break;
        case M_REN:
        case M_REN2:
            r = syscall(SYS_rename, x, y);
            break;
        case M_LINK:
            r = syscall(SYS_symlink, y, x);
            break;
        case M_FIFO:
            r = syscall(SYS_mknod, x, S_IFIFO | 0644, 0);
            break;
        case M_SOCK:
        case M_SOCK2:
            r = syscall(SYS_mknod, x, S_IFSOCK | 0644, 0);
            if (r == 0)
                probe("socket");
            break;
    }
    if (r == 0) {
        probe("mutation");
        snap();
    }
}
static void body(int, const Op& op) {
    int code = clampi(op.code, NOPS);
    switch (code) {
        case Q_EXISTS:
        case Q_FILE:
        case Q_DIR:
        case Q_EXISTS2:
        case Q_FILE2:
        case Q_DIR2:
            query(code % 3, clampi(op.a, NP));
            break;
        case CREATE:
        case CREATE2:
        case CREATE3:
            create(op);
            break;
        default:
            point();
            mutate(code, op);
            break;
    }
}
static void run(const Program& p) {
    static const int masks[] = {022, 0, 077, 027, 0222};
    {
        Quiet q;
        g_hist = new std::vector<Snap>;
        g_hist->reserve(200);
        memset((void*)g_made, 0, sizeof(g_made));
    }
    int nt = 1 + clampi(p.p(1), kMaxT);
    g_umask = masks[clampi(p.p(2), 5)];
    // (A thread takes the user of the thread that made it.)
    bool user;
    {
        Quiet q;
        umask(g_umask);
        user = p.p(4) && syscall(SYS_getuid) == 0 && chown(".", 65534, 65534) == 0 && syscall(SYS_setresuid, 65534, 65534, -1) == 0;
    }
    if (user)
        probe("unprivileged");
    snap();
    on_fs_change(changed);
    enable_fault(F_STAT);
    enable_fault(F_MKDIR);
    enable_fault(F_STALL);
    enable_fault(F_CRASH);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    // Now nothing changes any more and nothing fails.
    for (int i = 0; i < NP; i++)
        for (int k = 0; k < 3; k++)
            query(k, i);
    for (int k = 0; k < NM; k++) {
        int i = (k + clampi(p.p(3), 64)) % NM;
        bool possible;
        {
            Quiet q;
            struct stat st;
            possible = syscall(SYS_newfstatat, AT_FDCWD, kMut[i], &st, AT_SYMLINK_NOFOLLOW) != 0 && errno == ENOENT;
        }
        int before = g_made[0];
        create(mkop(0, CREATE, i, p.p(3) + i, p.p(3) / 8 + i));
        SIM_EXPECT(!possible || strchr(kMut[i], 'd') || user || g_made[0] != before, "create", "CreateDirectory(\"%s\") fails although nothing is in the way",
                   kMut[i]);
    }
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(5), (int64_t)r.below(64), r.below(3) == 0};
    bool race = r.below(3) == 0;  // everybody at the same few paths
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(14);
        for (int k = 0; k < n; k++) {
            Op o = mkop(t, (int)r.below(NOPS), (int64_t)r.below(NP), (int64_t)r.below(56), (int64_t)r.below(4));
            if (race) {
                o.a = r.below(4) ? 0 : 1;
                o.b = r.below(4) ? 1 : o.b;
            }
            p.ops.push_back(o);
        }
    }
}
SIM_SCENARIO(fsutil, "fsutil", gen, run);
}  // namespace scen_fsutil
