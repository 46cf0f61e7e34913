// C19: texts of system errors.
#include "buf.h"

#include <amtl/os/am-system-errors.h>

#include <errno.h>

using namespace sim;
using namespace bufs;

namespace scen_syserr {

const int kMaxT = 4;

__attribute__((noinline)) static std::string message(int code) {
    const char* d = strerrordesc_np(code);
    return d ? std::string(d) : "Unknown error " + std::to_string(code);
}
static int code_of(int64_t v) {
    static const int odd[] = {-1, -7, 0, 41, 58, 134, 200, 1000, 99999, 2147483647, -2147483647 - 1, 255};
    int n = clampi(v, 150);
    return n < 136 ? n : odd[clampi(n, 12)];
}
static size_t size_of(int64_t v, size_t len) {
    static const size_t s[] = {0, 1, 2, 3, 5, 8, 16, 30, 64, 128, 256, 400};
    static const size_t big[] = {1000, 1024, 4096, 65535, 65536, 70000};
    if (v / 24 % 30 == 7)
        return big[clampi(v / 720, 6)];
    int n = clampi(v, 24);
    return n < 12 ? s[n] : len + 6 > (size_t)(n - 12) ? len + 6 - (size_t)(n - 12) : 0;
}

enum { BYCODE, BYERRNO, BYERRNO2, NOPS };

static void body(int, const Op& op) {
    int what = clampi(op.code, NOPS);
    const char* fn = what == BYCODE ? "FormatSystemErrorCode" : "FormatSystemError";
    int code = code_of(op.a);
    Quiet* q = new Quiet;
    std::string want = message(code);
    size_t n = size_of(op.b, want.size());
    delete q;
    Buf b = make_buf(n, op.c & 1);
    char* to = n || op.c & 2 ? b.p : nullptr;  // (who has no room may have no buffer)
    if (what == BYCODE) {
        errno = code_of(op.a + 1);
        ke::FormatSystemErrorCode(code, to, b.n);
    } else {
        errno = code;
        if (what == BYERRNO2)
            point();  // whatever other threads do meanwhile
        ke::FormatSystemError(to, b.n);
    }
    check_guards(b, fn);
    q = new Quiet;
    if (b.n) {
        if (!memchr(b.p, 0, b.n))
            violation("unterminated", "%s left no terminated string in %zu bytes", fn, b.n);
        if (!holds(b, strlen(b.p), want))
            violation("text", "%s gives %s for error %d (%s) in %zu bytes", fn, show(b.p).c_str(), code, want.c_str(), b.n);
        probe(b.n > want.size() ? "fits" : "cut");
    } else {
        probe("no-room");
    }
    want = std::string();
    delete q;
    arena_free(b.block);
}
static void run(const Program& p) {
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    enable_fault(F_SYSCALL);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(10);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(NOPS), (int64_t)r.below(150), (int64_t)r.below(1 << 12), (int64_t)r.below(1 << 12)));
    }
}
SIM_SCENARIO(syserr, "syserr", gen, run);
}  // namespace scen_syserr
