// C27: readings of a clock that may jump are converted exactly, and formatted whole or not at all.
#include "buf.h"

#include <amtl/am-time.h>

#include <new>

using namespace sim;
using namespace bufs;

namespace scen_timefmt {

const int kMaxT = 4;
const int kKept = 6;  // readings kept, by all threads

typedef __int128 Wide;
ORACLE Oi64 g_sec[kKept], g_nsec[kKept], g_count[kKept];
ORACLE Obool g_have[kKept];

// Clocks that count coarser than nanoseconds.
template <typename D>
struct ClockOf {
    typedef D duration;
    typedef typename D::rep rep;
    typedef typename D::period period;
    typedef std::chrono::time_point<ClockOf> time_point;
    static const bool is_steady = false;
};
typedef std::chrono::nanoseconds Ns;

static Wide exact(const timespec& ts) {
    return (Wide)ts.tv_sec * 1000000000 + ts.tv_nsec;
}
static bool same_ns(Wide want, Ns got) {
    return want == (Wide)got.count();
}
// A clock of coarse ticks gives the reading in its own ticks: exactly if it can, the tick before or after it otherwise.
static bool near(Wide want, Wide got, int64_t tick) {
    Wide d = want > got ? want - got : got - want;
    return got % tick == 0 && (want % tick == 0 ? d == 0 : d < tick);
}
template <typename C>
__attribute__((noinline)) static void check_point(const timespec& ts, int64_t tick, const char* what) {
    std::chrono::time_point<C, Ns> tp = ke::TimespecToTimePoint<C>(ts);
    SIM_EXPECT(near(exact(ts), (Wide)tp.time_since_epoch().count(), tick), "conversion",
               "TimespecToTimePoint<%s> of %lld s %ld ns is %lld ns", what, (long long)ts.tv_sec, ts.tv_nsec,
               (long long)tp.time_since_epoch().count());
}
template <typename D, typename T>
__attribute__((noinline)) static void check_epoch(T v, const char* what) {
    typedef std::chrono::time_point<std::chrono::system_clock, D> P;
    P tp = ke::EpochValueToTimePoint<P>(v);
    SIM_EXPECT((Wide)tp.time_since_epoch().count() == (Wide)v, "conversion", "EpochValueToTimePoint of %lld %s is %lld", (long long)v,
               what, (long long)tp.time_since_epoch().count());
}

// Formats: conversions the C locale knows, and text between them.
__attribute__((noinline)) static std::string format_of(int64_t seed, int64_t size) {
    static const char* const cs[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%A", "%B", "%c", "%x", "%X", "%p", "%j", "%y", "%%", "%a",
                                     "%b", "%D", "%F", "%T", "%R", "%r", "%e", "%I", "%U", "%W", "%u", "%w", "%G", "%V", "%n", "%t", "%C", "%h",
                                     "%g", "%z", "%Z", "%k", "%l", "%P"};
    static const size_t ls[] = {0, 1, 2, 3, 5, 9, 14, 15, 16, 17, 40, 200, 511, 512, 513, 1024, 5000};
    Rng r((uint64_t)seed + 77);
    std::string s;
    int n = (int)r.below(7);
    for (int k = 0; k < n; k++) {
        s += cs[r.below(40)];
        s += std::string(r.below(3), "-: /T."[r.below(6)]);
    }
    size_t pad = ls[clampi(size, 17)];
    if (size / 17 % 40 == 3)
        pad = size / 680 % 2 ? 60000 : 70001;
    return size & 1 ? std::string(pad, 'x') + s : s + std::string(pad, 'y');
}
__attribute__((noinline)) static std::string model(const struct tm& tm, const std::string& fmt) {
    std::string r;
    char buf[300];
    for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') {
            r += fmt[i];
            continue;
        }
        char f[3] = {'%', fmt[++i], 0};
        size_t n = strftime(buf, sizeof(buf), f, &tm);
        r.append(buf, n);
    }
    return r;
}

enum { READ, FORMAT, FORMATSTR, EPOCH, NOPS };

static void reading(const Op& op) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (op.c & 1)
        ts.tv_nsec = (long)(((uint64_t)op.b * 7919 + 13) % 1000000000);
    if (op.c & 2)
        ts.tv_nsec -= ts.tv_nsec % (op.c & 4 ? 1000000 : 1000);
    if (op.c & 8 && ts.tv_sec > -9000000000 && ts.tv_sec < 9000000000)
        ts.tv_sec += op.b % 100000000 - 50000000;
    Ns d = ke::TimespecToDuration(ts);
    SIM_EXPECT(same_ns(exact(ts), d), "conversion", "TimespecToDuration of %lld s %ld ns is %lld ns", (long long)ts.tv_sec,
               ts.tv_nsec, (long long)d.count());
    check_point<std::chrono::system_clock>(ts, 1, "system_clock");
    check_point<std::chrono::steady_clock>(ts, 1, "steady_clock");
    check_point<ClockOf<std::chrono::microseconds>>(ts, 1000, "clock of microseconds");
    check_point<ClockOf<std::chrono::milliseconds>>(ts, 1000000, "clock of milliseconds");
    check_point<ClockOf<std::chrono::seconds>>(ts, 1000000000, "clock of seconds");
    if (ts.tv_sec < 0)
        probe("before-1970");
    if (ts.tv_sec > 2147483647)
        probe("beyond-32-bits");
    // Readings keep their order and distance, whoever took them and whatever the clock did in between.
    Quiet q;
    for (int i = 0; i < kKept; i++) {
        if (!g_have[i])
            continue;
        Wide want = exact(ts) - ((Wide)(int64_t)g_sec[i] * 1000000000 + (int64_t)g_nsec[i]);
        if ((Wide)d.count() - (int64_t)g_count[i] != want)
            violation("distance", "two readings are %lld ns apart, their durations %lld ns", (long long)want,
                      (long long)(d.count() - (int64_t)g_count[i]));
        if (want < 0)
            probe("backwards");
    }
    int k = clampi(op.a, kKept);
    g_have[k] = true;
    g_sec[k] = (int64_t)ts.tv_sec;
    g_nsec[k] = (int64_t)ts.tv_nsec;
    g_count[k] = (int64_t)d.count();
}
static void formatting(const Op& op, bool str) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    struct Case {
        std::string fmt, want;
        struct tm tm;
        char* text;
    };
    Case* c;
    {
        Quiet q;
        c = new Case;
        time_t t = ts.tv_sec;
        gmtime_r(&t, &c->tm);
        c->tm.tm_zone = op.c & 1 ? "XYZ" : "GMT";
        if (op.c & 8) {
            // Not a moment that exists, but every field has its text.
            Rng r((uint64_t)op.b * 31 + (uint64_t)op.a);
            c->tm.tm_wday = (int)r.below(7);
            c->tm.tm_yday = (int)r.below(366);
            c->tm.tm_mday = 1 + (int)r.below(31);
            c->tm.tm_mon = (int)r.below(12);
            c->tm.tm_hour = (int)r.below(24);
            c->tm.tm_sec = (int)r.below(61);
            c->tm.tm_isdst = (int)r.below(3) - 1;
            c->tm.tm_gmtoff = ((long)r.below(49) - 24) * 1800;
            probe("any-fields");
        }
        c->fmt = format_of(op.a, op.b);
        c->want = model(c->tm, c->fmt);
        c->text = (char*)arena_alloc(c->fmt.size() + 1);
        if (!c->text)
            violation("harness", "simulated heap exhausted");
        memcpy(c->text, c->fmt.c_str(), c->fmt.size() + 1);
    }
    uint32_t nomem = thread_hits(F_NEW);
    try {
        std::string fmt;
        if (str)
            fmt = c->text;
        std::string got = str ? ke::FormatTime(c->tm, fmt) : ke::FormatTime(c->tm, c->text);
        Quiet q;
        if (got != c->want)
            violation("text", "FormatTime of %s gives %s (%zu) instead of %s (%zu)", show(c->fmt).c_str(), show(got).c_str(), got.size(),
                      show(c->want).c_str(), c->want.size());
        probe("formatted");
    } catch (std::bad_alloc&) {
        SIM_EXPECT(thread_hits(F_NEW) != nomem, "spurious-exception", "FormatTime threw although there was memory");
        probe("bad-alloc");
    }
    arena_free(c->text);
    Quiet q;
    delete c;
}
static void body(int, const Op& op) {
    switch (clampi(op.code, NOPS)) {
        case READ:
            reading(op);
            break;
        case FORMAT:
            formatting(op, false);
            break;
        case FORMATSTR:
            formatting(op, true);
            break;
        case EPOCH: {
            timespec ts;
            clock_gettime(CLOCK_REALTIME, &ts);
            check_epoch<std::chrono::seconds>((int64_t)ts.tv_sec, "s");
            check_epoch<std::chrono::seconds>((int32_t)(ts.tv_sec & 0x7fffffff), "s (32 bits)");
            check_epoch<std::chrono::milliseconds>((int64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000, "ms");
            check_epoch<std::chrono::microseconds>((int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000, "us");
            check_epoch<Ns>((int64_t)exact(ts), "ns");
            break;
        }
    }
}
static void run(const Program& p) {
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(2000000);
    enable_fault(F_CLOCK);
    if (p.p(2) & 1)
        enable_fault(F_NEW);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(3)};
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(9);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(NOPS), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 30), (int64_t)r.below(16)));
    }
}
SIM_SCENARIO(timefmt, "timefmt", gen, run);
}  // namespace scen_timefmt
